package sa;

import java.util.*;
import java.util.function.*;
import org.objectweb.asm.*;
import org.objectweb.asm.tree.*;

/**
 * Computes effect summaries: for an entry point, the set of abstract paths (facts, ordered effects, heap
 * changes, outcome) by abstract interpretation of the bytecode with inlining of in-program callees.
 * Loops over unknown data are widened to a set of generic iterations; nothing is unrolled on unknown data.
 */
final class Engine {
  final Prog prog;
  final Lib lib;

  // analysis options
  boolean conc;                                   // other threads may change shared cells at any time
  Set<String> shared = new HashSet<>();           // "Class.field" cells other threads may change
  Set<String> boundary = new HashSet<>();         // "Class.method" not inlined
  Set<String> nonThrowing = new HashSet<>();      // external operations that do not throw
  Set<String> nullable = new HashSet<>();         // symbol names that may be null
  final Set<V> nonNullValues = new HashSet<>();   // maps that never hold null values
  boolean nullValues;                             // maps may hold null values
  boolean inlineEquals;                           // inline equals/hashCode of in-program classes
  boolean derefUnknown;                           // dereferencing any undecided value may throw
  ElemHook elemHook;                              // what is known of the elements of a collection
  final Map<String, java.util.function.Consumer<St>> after = new HashMap<>();  // what else happens during an external call
  int maxPaths = 30000;
  int maxDepth = 40;

  long steps, pathsSeen, forks;
  int callsInlined, callsExternal;
  final Set<String> methodsAnalysed = new TreeSet<>();
  final Set<String> unmodelled = new TreeSet<>();
  final Map<String, St.Cell> staticHeap = new HashMap<>();
  final Map<String, St.Cell> staticInit = new HashMap<>();  // as class initialisation leaves it
  String idPrefix = "";
  V thread;                                       // the current thread, when it is not the first one

  static final class Out {
    final St st; final V val; final V exc;
    Out(St st, V val, V exc) { this.st = st; this.val = val; this.exc = exc; }
    static Out ret(St s, V v) { return new Out(s, v, null); }
    static Out thr(St s, V e) { return new Out(s, null, e); }
  }
  static final class Budget extends RuntimeException {
    Budget(String m) { super(m); }
  }

  Engine(Prog p) {
    prog = p;
    lib = new Lib(this);
    initStatics();
  }
  private Engine(Engine e) {
    prog = e.prog;
    lib = new Lib(this);
    staticHeap.putAll(e.staticHeap);
    staticInit.putAll(e.staticInit);
  }
  Engine fork() { return new Engine(this); }

  private void initStatics() {
    idPrefix = "S";
    int base = 1;
    // constants of an enum first, then those that look at them, tables made for switches last
    List<ClassNode> order = new ArrayList<>(prog.classes.values());
    order.sort(Comparator.comparingInt(c -> isEnum(c.name) ? 0 : (c.access & Opcodes.ACC_SYNTHETIC) != 0 ? 2 : 1));
    for (ClassNode c : order) {
      Prog.M ci = prog.declared(c.name, "<clinit>", "()V");
      St st = new St();
      st.next[0] = base;
      for (Map.Entry<String, St.Cell> e : staticHeap.entrySet()) if (enumCell(e.getValue())) st.heap.put(e.getKey(), e.getValue());
      if (ci != null) {
        try {
          List<Out> outs = run(ci, new V[0], st);
          if (outs.size() == 1 && outs.get(0).exc == null) {
            st = outs.get(0).st;
            base = st.next[0];
            for (St.Cell x : new ArrayList<>(st.heap.values()))
              if (x.base.k == V.K.SYM && (x.f.startsWith("$SwitchMap$") || x.f.equals("$VALUES"))) st.put(x.val, "$tag", V.str("immutable"));
            staticHeap.putAll(st.heap);
          }
        } catch (RuntimeException e) {
          // an unanalysed initialiser leaves the static fields symbolic
        }
      }
      for (FieldNode f : c.fields) {
        if ((f.access & Opcodes.ACC_STATIC) != 0 && f.value != null) {
          V b = V.sym("static:" + c.name, null).nn();
          staticHeap.put(b.key + "." + f.name, new St.Cell(b, f.name, constant(f.value)));
        }
      }
    }
    staticInit.putAll(staticHeap);
    // what may have changed since class initialisation is unknown
    staticHeap.values().removeIf(c -> {
      if (c.f.equals("$val")) return true;
      if (c.f.equals("$list") || c.f.equals("$map") || c.f.equals("$copyOf") || c.f.equals("$dir")) return !"immutable".equals(tag(c.base));
      if (c.base.k == V.K.SYM && c.base.op.startsWith("static:")) {
        FieldNode f = prog.field(c.base.op.substring(7), c.f);
        return f == null || (f.access & Opcodes.ACC_FINAL) == 0;
      }
      if (c.base.k == V.K.OBJ && prog.inApp(c.base.type)) {
        FieldNode f = prog.field(c.base.type, c.f);
        return f != null && (f.access & Opcodes.ACC_FINAL) == 0;
      }
      return false;
    });
    idPrefix = "";
    methodsAnalysed.clear();
    steps = 0;
  }
  boolean isEnum(String t) {
    return prog.inApp(t) && ("java/lang/Enum".equals(prog.classes.get(t).superName) || isEnum(prog.classes.get(t).superName));
  }
  /** What is known of the constants of an enum. */
  private boolean enumCell(St.Cell c) {
    if (c.base.k == V.K.SYM && c.base.op.startsWith("static:")) return isEnum(c.base.op.substring(7));
    return c.base.k == V.K.OBJ && (isEnum(c.base.type) || "immutable".equals(tag(c.base)));
  }
  /** The constants of an enum, or null when they are not known. */
  private List<V> constants(String t, St st) {
    List<V> r = new ArrayList<>();
    while (prog.inApp(t) && !"java/lang/Enum".equals(prog.classes.get(t).superName)) t = prog.classes.get(t).superName;
    if (!prog.inApp(t)) return null;
    V owner = V.sym("static:" + t, null).nn();
    for (FieldNode f : prog.classes.get(t).fields) {
      if ((f.access & Opcodes.ACC_ENUM) == 0) continue;
      V v = st.get(owner, f.name);
      if (v == null || v.k != V.K.OBJ) return null;
      r.add(v);
    }
    return r;
  }
  /** A call on one of the constants of an enum. */
  private List<Out> enumCall(int opc, String owner, String name, String desc, V[] args, St st) {
    V e = args[0];
    if (e.k == V.K.OBJ) {
      V n = st.get(e, "$ename"), o = st.get(e, "$ordinal");
      if (n == null) return null;
      if (name.equals("ordinal")) return List.of(Out.ret(st, o));
      if (name.equals("name") || name.equals("toString") && prog.resolve(e.type, "toString", desc) == null) return List.of(Out.ret(st, n));
      return null;
    }
    if (opc == Opcodes.INVOKESPECIAL || isObjectMethod(name, desc) && !name.equals("toString")) return null;
    List<V> cs = constants(isEnum(e.type) ? e.type : owner, st);
    if (cs == null || cs.size() > 12) return null;
    List<Out> r = new ArrayList<>();
    for (V c : cs) {
      St s = st.copy();
      if (!s.assume(lib.sameAtom(s, e, c), true)) continue;
      V[] a = args.clone();
      a[0] = c;
      r.addAll(invoke(opc, owner, name, desc, a, s));
    }
    return r;
  }
  /** equals, hashCode and toString as the compiler makes them for a record. */
  private List<Out> record(String name, InvokeDynamicInsnNode id, V[] args, St st) {
    List<V> mine = new ArrayList<>(), its = new ArrayList<>();
    for (int i = 2; i < id.bsmArgs.length; i++) {
      Handle h = (Handle) id.bsmArgs[i];
      mine.add(readField(st, args[0], h.getOwner(), h.getName(), h.getDesc()));
      if (args.length > 1) its.add(readField(st, args[1], h.getOwner(), h.getName(), h.getDesc()));
    }
    if (name.equals("hashCode")) return List.of(Out.ret(st, V.app("Objects.hash", "I", mine.toArray(V.NONE))));
    if (name.equals("toString")) return List.of(Out.ret(st, V.app("concat", "java/lang/String", mine.toArray(V.NONE))));
    List<Out> r = new ArrayList<>();
    St[] is = splitBool(st, lib.instanceOf(st, args[1], args[0].type));
    if (is[0] != null) r.add(Out.ret(is[0], V.FALSE));
    List<St> eq = is[1] == null ? List.of() : List.of(is[1]);
    for (int i = 0; i < mine.size(); i++) {
      List<St> next = new ArrayList<>();
      for (St s : eq) {
        String d = ((Handle) id.bsmArgs[i + 2]).getDesc();
        List<Out> os = new ArrayList<>();
        if (d.startsWith("L") || d.startsWith("["))
          os = invoke(Opcodes.INVOKESTATIC, "java/util/Objects", "equals", "(Ljava/lang/Object;Ljava/lang/Object;)Z", new V[]{mine.get(i), its.get(i)}, s);
        else {
          St[] c = splitCmp(s, "==", mine.get(i), its.get(i));
          if (c[1] != null) os.add(Out.ret(c[1], V.TRUE));
          if (c[0] != null) os.add(Out.ret(c[0], V.FALSE));
        }
        for (Out o : os) {
          if (o.exc != null) { r.add(o); continue; }
          St[] b = splitBool(o.st, o.val);
          if (b[1] != null) next.add(b[1]);
          if (b[0] != null) r.add(Out.ret(b[0], V.FALSE));
        }
      }
      eq = next;
    }
    for (St s : eq) r.add(Out.ret(s, V.TRUE));
    return r;
  }
  private String tag(V base) {
    St.Cell c = staticHeap.get(base.key + ".$tag");
    return c == null ? null : String.valueOf(c.val.x);
  }

  /** The state right after class initialisation. */
  St initialState() {
    St st = new St();
    st.heap.putAll(staticInit);
    return st;
  }
  St newState() {
    St st = new St();
    st.heap.putAll(staticHeap);
    return st;
  }

  // ---- frames ------------------------------------------------------------------------------

  final ArrayDeque<String> chain = new ArrayDeque<>();
  private final ArrayDeque<Prog.M> active = new ArrayDeque<>();
  private final ArrayDeque<V[]> activeArgs = new ArrayDeque<>();
  /** Does every call of a recursion get another concrete value in some place? */
  private static boolean progresses(List<V[]> calls, V[] now) {
    for (int i = 0; i < now.length; i++) {
      Set<V> seen = new HashSet<>();
      boolean all = concrete(now[i]) && seen.add(now[i]);
      for (V[] c : calls) all &= i < c.length && concrete(c[i]) && seen.add(c[i]);
      if (all) return true;
    }
    return false;
  }
  private static boolean concrete(V v) { return v != null && (v.k == V.K.CONST || v.k == V.K.LAM); }

  static final class Path {
    int pc; V[] loc; ArrayList<V> stack; St st; boolean moved;
    Path copy() { return with(st.copy()); }
    Path with(St s) {
      Path p = new Path();
      p.pc = pc; p.loc = loc.clone(); p.stack = new ArrayList<>(stack); p.st = s; p.moved = moved;
      return p;
    }
    V pop() { return stack.remove(stack.size() - 1); }
    void push(V v) { stack.add(v); }
  }

  final class Frame {
    final Prog.M m; final Prog.CFG cfg;
    Frame(Prog.M m) { this.m = m; cfg = m.cfg(); }
    String site(int pc) {
      return V.shortName(m.c.name) + "." + m.m.name + "(" + m.c.sourceFile + ":" + cfg.line[pc] + ")";
    }
  }
  Frame cur;
  int curPc;
  String site() { return cur == null ? "root" : cur.site(curPc); }

  Eff eff(Eff.K k, String op, V recv, List<V> args, St st) {
    Eff e = new Eff(k, op, recv, args, site(), new ArrayList<>(st.locks), st.region);
    e.snap = k == Eff.K.READ || k == Eff.K.ITER ? null : st.copy();
    e.chain = chainText();
    st.trace.add(e);
    return e;
  }
  String chainText() {
    List<String> l = new ArrayList<>(chain);
    Collections.reverse(l);
    return String.join(" > ", l);
  }

  List<Out> run(Prog.M m, V[] args, St st) {
    if (m.isAbstract()) throw new Prog.Missing("body of " + m);
    int depth = active.size();
    int rec = 0;
    List<V[]> same = new ArrayList<>();
    Iterator<V[]> given = activeArgs.iterator();
    for (Prog.M a : active) { V[] g = given.next(); if (a == m) { rec++; same.add(g); } }
    if (rec > 2 && !(rec < 8 && progresses(same, args)) || depth > maxDepth) {
      st.note("recursion at " + m.id());
      unmodelled.add("recursion " + m.id());
      V r = V.res(st.id(), "recursive " + m.id(), ret(m.m.desc));
      return List.of(Out.ret(st, "V".equals(ret(m.m.desc)) ? null : r));
    }
    methodsAnalysed.add(m.id());
    Frame f = new Frame(m);
    Frame saved = cur;
    int savedPc = curPc;
    if (saved != null) chain.push(saved.site(savedPc));
    active.push(m);
    activeArgs.push(args);
    try {
      Path p = new Path();
      p.loc = new V[Math.max(m.m.maxLocals, args.length * 2 + 2)];
      int li = 0;
      Type[] ts = Type.getArgumentTypes(m.m.desc);
      int ai = 0;
      if (!m.isStatic()) p.loc[li++] = typed(args[ai++], m.c.name);
      for (Type t : ts) {
        p.loc[li] = typed(args[ai++], internal(t));
        li += t.getSize();
      }
      p.stack = new ArrayList<>();
      p.st = st;
      V lock = null;
      if ((m.m.access & Opcodes.ACC_SYNCHRONIZED) != 0) {
        lock = m.isStatic() ? V.cls(m.c.name) : p.loc[0];
        cur = f;
        curPc = 0;
        lock(st, lock);
      }
      List<Out> outs = new ArrayList<>();
      explore(f, List.of(p), -1, null, outs, null, null);
      if (lock != null) for (Out o : outs) { cur = f; unlock(o.st, lock); }
      return outs;
    } finally {
      active.pop();
      activeArgs.pop();
      if (saved != null) chain.pop();
      cur = saved;
      curPc = savedPc;
    }
  }

  V typed(V v, String type) {
    if (v == null || type == null) return v;
    if (v.type == null || "java/lang/Object".equals(v.type)) return retype(v, type);
    if (v.isInt() && "Z".equals(type)) return v;
    return v;
  }
  static V retype(V v, String t) {
    V r;
    switch (v.k) {
      case SYM: r = V.sym(v.op, t); break;
      case FLD: {
        int at = v.key.lastIndexOf('@');
        int ver = 0;
        String base = v.a[0].key + "." + v.op;
        if (v.key.length() > base.length()) ver = Integer.parseInt(v.key.substring(base.length() + 1));
        r = V.fld(v.a[0], v.op, t, ver);
        break;
      }
      case RES: r = V.res((Integer) v.x, v.op, t); break;
      case APP: r = V.app(v.op, t, v.a); break;
      case LVAR: r = V.lvar((Integer) v.x, v.op, t); break;
      default: return v;
    }
    r.nonNull = v.nonNull;
    return r;
  }
  static String internal(Type t) {
    switch (t.getSort()) {
      case Type.OBJECT: return t.getInternalName();
      case Type.ARRAY: return t.getDescriptor();
      default: return t.getDescriptor();
    }
  }
  static String ret(String desc) { return internal(Type.getReturnType(desc)); }

  void lock(St st, V l) {
    eff(Eff.K.LOCK, "lock", l, List.of(), st);
    st.locks.add(l);
    if (st.locks.size() == 1) st.region = st.id();
    if (conc) dropShared(st);
  }
  void unlock(St st, V l) {
    for (int i = st.locks.size() - 1; i >= 0; i--) {
      if (st.locks.get(i).equals(l)) { st.locks.remove(i); break; }
    }
    if (st.locks.isEmpty()) st.region = 0;
    eff(Eff.K.UNLOCK, "unlock", l, List.of(), st);
  }
  void dropShared(St st) {
    st.heap.values().removeIf(this::isShared);
  }
  boolean isShared(St.Cell c) {
    if (c.f.equals("$val")) return true;
    String o = c.base.k == V.K.SYM && c.base.op.startsWith("static:") ? c.base.op.substring(7) : c.base.type;
    return o != null && shared.contains(V.shortName(prog.fieldOwner(o, c.f)) + "." + c.f);
  }

  // ---- exploration -------------------------------------------------------------------------

  private void explore(Frame f, List<Path> init, int header, BitSet body, List<Out> outs,
      List<Path> backs, List<Path> exits) {
    ArrayDeque<Path> work = new ArrayDeque<>(init);
    while (!work.isEmpty()) {
      Path p = work.poll();
      while (p != null) {
        if (header >= 0) {
          if (p.pc == header && p.moved) { backs.add(p); p = null; continue; }
          if (!body.get(p.pc)) { exits.add(p); p = null; continue; }
        }
        if (f.cfg.loops.containsKey(p.pc) && !(p.pc == header && !p.moved)) {
          for (Path e : doLoop(f, p, outs)) { e.moved = true; work.add(e); }
          p = null;
          continue;
        }
        List<Path> next = step(f, p, outs);
        if (next == null) continue; // same path, advanced in place
        pathsSeen += Math.max(0, next.size() - 1);
        if (pathsSeen > maxPaths) throw new Budget("more than " + maxPaths + " paths");
        work.addAll(next);
        p = null;
      }
    }
  }

  private List<Path> doLoop(Frame f, Path p, List<Out> outs) {
    int h = p.pc;
    BitSet body = f.cfg.loops.get(h);
    // 1. loops over data that is known on this path are followed exactly
    List<Path> cur = new ArrayList<>();
    Path c0 = p.copy();
    c0.st.sym = false;
    cur.add(c0);
    List<Path> done = new ArrayList<>();
    List<Out> couts = new ArrayList<>();
    boolean concrete = true;
    for (int k = 0; k < 24 && concrete; k++) {
      List<Path> backs = new ArrayList<>(), left = new ArrayList<>();
      int returned = couts.size();
      for (Path q : cur) q.moved = false;
      explore(f, cur, h, body, couts, backs, left);
      // what is unknown may decide what an iteration does, but not how many there are
      boolean unknown = false, returns = false;
      for (Path b : backs) unknown |= b.st.sym;
      for (Path b : left) unknown |= b.st.sym;
      for (Out o : couts.subList(returned, couts.size())) returns |= o.exc == null;
      if (unknown && (returns || !backs.isEmpty() && !left.isEmpty())) concrete = false;
      done.addAll(left);
      if (backs.size() + done.size() > 150) concrete = false;
      cur = backs;
      if (backs.isEmpty()) break;
    }
    if (concrete && cur.isEmpty()) {
      outs.addAll(couts);
      for (Path q : done) q.st.sym = p.st.sym;
      for (Out q : couts) q.st.sym = p.st.sym;
      return done;
    }
    // 2. otherwise widen
    Set<Integer> modLoc = new TreeSet<>();
    Map<String, St.Cell> modHeap = new TreeMap<>();
    int lid = p.st.id();
    Set<String> notCarried = new HashSet<>(), notInv = new HashSet<>();
    for (int round = 0; ; round++) {
      Path q = p.copy();
      q.moved = false;
      Loop L = new Loop(lid, f.site(h));
      for (int i : modLoc) {
        V v = q.loc[i];
        if (v == null) continue;
        L.init.put("v" + i, v);
        q.loc[i] = V.lvar(lid, "v" + i, v.isNull() ? null : v.type);
        if (v.type != null && v.type.equals("Z")) q.loc[i] = V.lvar(lid, "v" + i, "Z");
        // a variable that holds what was last taken from a queue
        V from = notCarried.contains("v" + i) ? null : takenFrom(p.st, v);
        if (from != null) {
          L.carried.put("v" + i, from);
          if (elemHook != null) elemHook.on(q.st, from, q.loc[i]);
        }
      }
      for (Map.Entry<String, St.Cell> e : modHeap.entrySet()) {
        St.Cell c = e.getValue();
        St.Cell now = q.st.heap.get(e.getKey());
        L.init.put(e.getKey(), now == null ? null : now.val);
        if (c.f.startsWith("$") && (c.f.equals("$list") || c.f.equals("$map") || c.f.equals("$copyOf") || c.f.equals("$dir"))) q.st.heap.remove(e.getKey());
        else q.st.put(c.base, c.f, V.lvar(lid, e.getKey(), c.val == null ? null : c.val.type));
      }
      // what holds on entry and after every iteration
      Map<String, V> inv = new TreeMap<>();
      for (int i : modLoc) {
        V v = p.loc[i];
        if (v != null && v.type != null && v.type.length() > 1 && !notInv.contains("v" + i) && Boolean.FALSE.equals(p.st.decideNull(v)) && q.st.assume(St.isNull(q.loc[i]), false))
          inv.put("v" + i, q.loc[i]);
      }
      for (Map.Entry<String, St.Cell> e : modHeap.entrySet()) {
        St.Cell c = e.getValue();
        if (c.f.equals("$ver") && !notInv.contains(e.getKey()) && Boolean.FALSE.equals(p.st.decide(lib.isEmpty(p.st, c.base))) && q.st.assume(lib.isEmpty(q.st, c.base), false))
          inv.put(e.getKey(), c.base);
      }
      cur2(f, h);
      Eff le = eff(Eff.K.LOOP, "loop", null, List.of(), q.st);
      le.loop = L;
      L.start = q.st.trace.size();
      q.st.sym = false;
      St begin = q.st.copy();
      List<Path> backs = new ArrayList<>(), exits = new ArrayList<>();
      List<Out> louts = new ArrayList<>();
      V[] hloc = q.loc.clone();
      explore(f, List.of(q), h, body, louts, backs, exits);
      boolean grew = false;
      for (Path b : backs) {
        for (int i = 0; i < b.loc.length; i++) {
          if (hloc[i] == null || modLoc.contains(i)) continue;
          if (b.loc[i] == null || !b.loc[i].equals(hloc[i])) { modLoc.add(i); grew = true; }
        }
        for (Map.Entry<String, St.Cell> e : b.st.heap.entrySet()) {
          if (modHeap.containsKey(e.getKey())) continue;
          St.Cell was = begin.heap.get(e.getKey());
          St.Cell now = e.getValue();
          if (was != null && was.val != null && was.val.equals(now.val)) continue;
          if (now.f.equals("$peek")) { if (was == null) continue; }
          if (was == null && bornIn(now.base, begin)) continue;
          if (carriedAway(L, now.base, b, hloc)) continue;
          modHeap.put(e.getKey(), now);
          grew = true;
        }
        for (Map.Entry<String, St.Cell> e : begin.heap.entrySet()) {
          if (carriedAway(L, e.getValue().base, b, hloc)) continue;
          if (!b.st.heap.containsKey(e.getKey()) && !modHeap.containsKey(e.getKey())) {
            modHeap.put(e.getKey(), e.getValue());
            grew = true;
          }
        }
      }
      for (Map.Entry<String, V> c : L.carried.entrySet()) {
        int i = Integer.parseInt(c.getKey().substring(1));
        for (Path b : backs)
          if (b.loc[i] == null || !b.loc[i].isNull() && !b.loc[i].equals(hloc[i]) && !c.getValue().equals(takenFrom(b.st, b.loc[i]))) grew |= notCarried.add(c.getKey());
      }
      for (Map.Entry<String, V> e : inv.entrySet())
        for (Path b : backs) {
          boolean ok = e.getKey().startsWith("v") && modLoc.contains(num(e.getKey())) ? b.loc[num(e.getKey())] != null && Boolean.FALSE.equals(b.st.decideNull(b.loc[num(e.getKey())]))
              : Boolean.FALSE.equals(b.st.decide(lib.isEmpty(b.st, e.getValue())));
          if (!ok) grew |= notInv.add(e.getKey());
        }
      if (grew && round < 24) continue;
      if (grew) { p.st.note("loop at " + f.site(h) + " not stable"); }
      for (Path b : backs) {
        Map<String, V> upd = new LinkedHashMap<>();
        for (int i : modLoc) if (b.loc[i] != null) upd.put("v" + i, b.loc[i]);
        for (String k : modHeap.keySet()) {
          St.Cell c = b.st.heap.get(k);
          upd.put(k, c == null ? null : c.val);
        }
        addIter(L, new ArrayList<>(b.st.trace.subList(L.start, b.st.trace.size())), begin, b.st, upd);
      }
      outs.addAll(louts);
      Set<String> notes = new TreeSet<>();
      for (Path b : backs) notes.addAll(b.st.notes);
      for (Path e : exits) { e.st.sym = p.st.sym; transfer(L, p.st, e.st); e.st.notes.addAll(notes); }
      for (Out e : louts) { e.st.sym = p.st.sym; e.st.notes.addAll(notes); }
      return exits;
    }
  }
  /** Is this the object of a carried variable that the next iteration no longer holds? */
  private static boolean carriedAway(Loop L, V base, Path b, V[] hloc) {
    for (String c : L.carried.keySet()) {
      int i = Integer.parseInt(c.substring(1));
      if (base.equals(hloc[i]) && b.loc[i] != null && !b.loc[i].equals(hloc[i])) return true;
    }
    return false;
  }
  /** The queue a value was taken from on this path. */
  private static V takenFrom(St st, V v) {
    if (v == null) return null;
    for (Eff e : st.trace) if (e.k == Eff.K.MUT && e.op.startsWith("queue.poll") && e.res != null && !e.res.isNull() && e.res.equals(v)) return e.recv;
    return null;
  }
  private static int num(String v) {
    try { return Integer.parseInt(v.substring(1)); } catch (NumberFormatException x) { return -1; }
  }
  /** A loop that moves every element of a collection into a new, empty one leaves a copy of it, in order or reversed. */
  private void transfer(Loop L, St before, St exit) {
    V into = null, base = null;
    String dir = null;
    for (Loop.Iter it : L.iters) {
      Eff next = null, put = null;
      for (Eff g : World.all(it.effs)) {
        if (g.k == Eff.K.ITER && g.is("iter.next")) { if (next != null) return; next = g; }
        if (g.k == Eff.K.MUT) { if (put != null) return; put = g; }
      }
      if (next == null || put == null || put.args.size() != 1 || !next.res.equals(put.arg(0))) return;
      boolean front = put.is("queue.offerFirst");
      if (!front && !put.is("queue.offer") && !put.is("list.add")) return;
      String d = next.arg(0) == null ? "fwd" : String.valueOf(next.arg(0).x);
      if (!d.equals("fwd") && !d.equals("rev")) return;
      d = d.equals("fwd") == front ? "rev" : "fwd";
      if (into != null && (!into.equals(put.recv) || !base.equals(next.recv) || !d.equals(dir))) return;
      into = put.recv;
      base = next.recv;
      dir = d;
    }
    if (into == null || !St.fresh(into)) return;
    V had = before.get(into, "$list");
    if (had == null || had.a.length > 0) return;
    boolean done = false;
    for (Eff g : exit.trace.subList(Math.min(L.start, exit.trace.size()), exit.trace.size())) {
      if (g.k == Eff.K.MUT && into.equals(g.recv)) return;
      if (g.k == Eff.K.ITER && base.equals(g.recv)) { if (g.is("iter.done")) done = true; else return; }
    }
    if (!done) return;
    exit.drop(into, "$list");
    exit.put(into, "$copyOf", base);
    exit.put(into, "$copied", V.app(dir, null, base));
    if (dir.equals("rev")) exit.put(into, "$dir", V.str("rev")); else exit.drop(into, "$dir");
  }
  /** Records an iteration; one that leaves a truth value in a variable is recorded for either value. */
  private void addIter(Loop L, List<Eff> effs, St begin, St end, Map<String, V> upd) {
    for (Map.Entry<String, V> u : upd.entrySet()) {
      V v = u.getValue();
      if (v == null || v.isInt() || v.k != V.K.APP || !isBool(v)) continue;
      for (int i = 0; i < 2; i++) {
        St e = end.copy();
        if (!e.assume(v, i == 1)) continue;
        Map<String, V> m = new LinkedHashMap<>(upd);
        m.put(u.getKey(), V.num(i));
        addIter(L, effs, begin, e, m);
      }
      return;
    }
    L.iters.add(new Loop.Iter(effs, begin, end, upd));
  }
  private void cur2(Frame f, int pc) { cur = f; curPc = pc; }

  /** Was this object allocated after the given state? */
  boolean bornIn(V base, St begin) {
    if (base.k == V.K.OBJ) {
      try {
        return !base.op.startsWith("S") && Integer.parseInt(base.op) >= begin.next[0];
      } catch (NumberFormatException e) { return false; }
    }
    if (base.k == V.K.RES) return (Integer) base.x >= begin.next[0];
    for (V a : base.a) if (bornIn(a, begin)) return true;
    return false;
  }

  /** Loop over the elements of a collection, driven by a library method (forEach, anyMatch, ...). */
  interface ElemHook { void on(St st, V coll, V elem); }
  interface Body { List<Step> apply(St st, V elem); }
  static final class Step {
    final St st; final V val; final V exc; final boolean brk;
    Step(St st, V val, V exc, boolean brk) { this.st = st; this.val = val; this.exc = exc; this.brk = brk; }
    static Step cont(St s) { return new Step(s, null, null, false); }
    static Step brk(St s, V v) { return new Step(s, v, null, true); }
    static Step thr(St s, V e) { return new Step(s, null, e, true); }
  }
  static final class LoopOut {
    final St st; final V val; final V exc; final boolean exhausted;
    LoopOut(St st, V val, V exc, boolean ex) { this.st = st; this.val = val; this.exc = exc; exhausted = ex; }
  }

  List<LoopOut> forElems(St st0, V coll, Body body) {
    boolean sym = st0.sym;
    List<LoopOut> r = elems(st0, coll, body);
    for (LoopOut o : r) o.st.sym = sym;
    return r;
  }
  private List<LoopOut> inOrder(St st0, List<V> all, Body body) {
    List<LoopOut> res = new ArrayList<>();
    List<St> cur = new ArrayList<>(List.of(st0));
    for (V e : all) {
      List<St> nx = new ArrayList<>();
      for (St s : cur) {
        for (Step r : body.apply(s, e)) {
          if (r.exc != null) res.add(new LoopOut(r.st, null, r.exc, false));
          else if (r.brk) res.add(new LoopOut(r.st, r.val, null, false));
          else nx.add(r.st);
        }
      }
      cur = nx;
    }
    for (St s : cur) res.add(new LoopOut(s, null, null, true));
    return res;
  }
  private List<LoopOut> elems(St st0, V coll, Body body) {
    if (coll.is("collected")) return lib.pipeLoop(st0, coll.a[0], body);
    List<LoopOut> res = new ArrayList<>();
    Lib.Src src = lib.source(st0, coll);
    if (src.known != null) {
      St before = "par".equals(src.dir) && src.known.size() > 1 ? st0.copy() : null;
      res = inOrder(st0, src.known, body);
      // elements in no particular order: what is called for them may as well come in the opposite one
      if (before != null && res.stream().anyMatch(o -> o.st.trace.stream().skip(before.trace.size()).anyMatch(g -> g.k == Eff.K.CALL))) {
        List<V> rev = new ArrayList<>(src.known);
        Collections.reverse(rev);
        res.addAll(inOrder(before, rev, body));
      }
      return res;
    }
    if (src.base.is("collected")) st0.note("a collected stream taken in the order " + src.dir);
    V range = src.base.is("range") || src.base.is("iterate") ? src.base : null;
    V count = null;
    if (range != null && range.is("iterate")) {
      // as long as each test is decided, one number after the other
      List<LoopOut> done = new ArrayList<>();
      List<Map.Entry<St, V>> cur = List.of(Map.entry(st0.copy(), range.a[0]));
      boolean decided = true;
      for (int n = 0; decided && !cur.isEmpty(); n++) {
        List<Map.Entry<St, V>> nx = new ArrayList<>();
        for (Map.Entry<St, V> c : cur) {
          for (Out t : goesOn(range, c.getValue(), c.getKey())) {
            if (t.exc != null) { done.add(new LoopOut(t.st, null, t.exc, false)); continue; }
            Boolean d = t.st.decide(t.val);
            if (d == null || n > 64) { decided = false; continue; }
            if (!d) { done.add(new LoopOut(t.st, null, null, true)); continue; }
            for (Step r : body.apply(t.st, c.getValue())) {
              if (r.exc != null) done.add(new LoopOut(r.st, null, r.exc, false));
              else if (r.brk) done.add(new LoopOut(r.st, r.val, null, false));
              else for (Out v : following(range, c.getValue(), r.st))
                if (v.exc != null) done.add(new LoopOut(v.st, null, v.exc, false)); else nx.add(Map.entry(v.st, v.val));
            }
            if (!decided) break;
          }
          if (!decided) break;
        }
        cur = nx;
      }
      if (decided) return done;
    }
    if (range != null) {
      if (!"fwd".equals(src.dir)) st0.note("numbers taken in the order " + src.dir);
      count = V.obj(idPrefix + st0.id(), "java/lang/Object", site());
      st0.put(count, "$i", range.a[0]);
    }
    int lid = st0.id();
    st0.sym = true;
    Map<String, St.Cell> modHeap = new TreeMap<>();
    for (int round = 0; ; round++) {
      St q = st0.copy();
      Loop L = new Loop(lid, site());
      for (Map.Entry<String, St.Cell> e : modHeap.entrySet()) {
        St.Cell now = q.heap.get(e.getKey());
        L.init.put(e.getKey(), now == null ? null : now.val);
        St.Cell c = e.getValue();
        if (c.f.equals("$list") || c.f.equals("$map") || c.f.equals("$copyOf") || c.f.equals("$dir")) q.heap.remove(e.getKey());
        else q.put(c.base, c.f, V.lvar(lid, e.getKey(), c.val == null ? null : c.val.type));
      }
      Eff le = eff(Eff.K.LOOP, "loop", null, List.of(), q);
      le.loop = L;
      L.start = q.trace.size();
      St begin = q.copy();
      St it = q.copy();
      V elem;
      if (range != null) {
        elem = it.get(count, "$i");
        it = step(range, elem, it, true);
        if (it == null) { res.add(new LoopOut(q, null, null, true)); return res; }
        List<Out> nx = following(range, elem, it);
        if (nx.size() != 1 || nx.get(0).exc != null) { st0.note("numbers made by " + range.op); it.put(count, "$i", V.res(it.id(), "number", null)); }
        else { it = nx.get(0).st; it.put(count, "$i", nx.get(0).val); }
      } else {
        elem = V.res(it.id(), "elem", null);
        elem.nonNull = lib.noNulls(src.base);
        Eff ne = eff(Eff.K.ITER, "iter.next", src.base, List.of(V.str(src.dir)), it);
        ne.res = elem;
        lib.seenIn(it, src.base, elem);
      }
      if (range == null && elemHook != null) elemHook.on(it, src.base, elem);
      List<Step> steps = body.apply(it, elem);
      boolean grew = false;
      for (Step s : steps) {
        if (s.brk) continue;
        for (Map.Entry<String, St.Cell> e : s.st.heap.entrySet()) {
          if (modHeap.containsKey(e.getKey())) continue;
          St.Cell was = begin.heap.get(e.getKey());
          if (was != null && was.val != null && was.val.equals(e.getValue().val)) continue;
          if (was == null && bornIn(e.getValue().base, begin)) continue;
          modHeap.put(e.getKey(), e.getValue());
          grew = true;
        }
        for (Map.Entry<String, St.Cell> e : begin.heap.entrySet())
          if (!s.st.heap.containsKey(e.getKey()) && !modHeap.containsKey(e.getKey())) {
            modHeap.put(e.getKey(), e.getValue());
            grew = true;
          }
      }
      if (grew && round < 12) continue;
      for (Step s : steps) {
        if (s.exc != null) res.add(new LoopOut(s.st, null, s.exc, false));
        else if (s.brk) res.add(new LoopOut(s.st, s.val, null, false));
        else {
          Map<String, V> upd = new LinkedHashMap<>();
          for (String k : modHeap.keySet()) {
            St.Cell c = s.st.heap.get(k);
            upd.put(k, c == null ? null : c.val);
          }
          addIter(L, new ArrayList<>(s.st.trace.subList(L.start, s.st.trace.size())), begin, s.st, upd);
        }
      }
      St ex = q.copy();
      for (Step s : steps) if (s.exc == null && !s.brk) ex.notes.addAll(s.st.notes);
      if (range != null) { ex = step(range, ex.get(count, "$i"), ex, false); if (ex == null) return res; }
      else eff(Eff.K.ITER, "iter.done", src.base, List.of(V.str(src.dir)), ex);
      transfer(L, st0, ex);
      res.add(new LoopOut(ex, null, null, true));
      return res;
    }
  }

  /** Does a stream of numbers go on with this one? */
  private List<Out> goesOn(V range, V i, St st) {
    if (range.is("range")) { St[] s = splitCmp(st, "<", i, range.a[1]); List<Out> r = new ArrayList<>(); if (s[0] != null) r.add(Out.ret(s[0], V.FALSE)); if (s[1] != null) r.add(Out.ret(s[1], V.TRUE)); return r; }
    return callFn(range.a[1], "java/util/function/IntPredicate", "test", "(I)Z", new V[]{i}, st);
  }
  private List<Out> following(V range, V i, St st) {
    if (range.is("range")) return List.of(Out.ret(st, add(i, V.num(1))));
    return callFn(range.a[2], "java/util/function/IntUnaryOperator", "applyAsInt", "(I)I", new V[]{i}, st);
  }
  /** The state in which a stream of numbers goes on, or ends, with this one; null when it cannot. */
  private St step(V range, V i, St st, boolean on) {
    St found = null;
    for (Out t : goesOn(range, i, st)) {
      if (t.exc != null) { st.note("numbers made by " + range.op); continue; }
      St[] s = split(t.st, lib.boolTerm(t.val));
      St x = s[on ? 1 : 0];
      if (x == null) continue;
      if (found != null) { found.note("numbers made by " + range.op); continue; }
      found = x;
    }
    return found;
  }

  // ---- branching ---------------------------------------------------------------------------

  /** Splits a state on a boolean term. Index 0: false, index 1: true; null when infeasible. */
  St[] split(St st, V cond) {
    Boolean d = st.decide(cond);
    if (d != null) return d ? new St[]{null, st} : new St[]{st, null};
    forks++;
    if (cond.is("iszero") || cond.is("not") && cond.a[0].is("iszero") || cond.is("lt")) st.sym = true;
    St t = st.copy();
    boolean okT = t.assume(cond, true);
    boolean okF = st.assume(cond, false);
    return new St[]{okF ? st : null, okT ? t : null};
  }
  St[] splitCmp(St st, String op, V a, V b) {
    Boolean d = st.decideCmp(op, a, b);
    if (d != null) return d ? new St[]{null, st} : new St[]{st, null};
    forks++;
    St t = st.copy();
    boolean okT = t.assumeCmp(op, a, b, true);
    boolean okF = st.assumeCmp(op, a, b, false);
    st.sym = true;
    t.sym = true;
    return new St[]{okF ? st : null, okT ? t : null};
  }
  boolean isBool(V v) {
    if ("Z".equals(v.type)) return true;
    return v.k == V.K.APP && (v.op.equals("equals") || v.op.equals("same") || v.op.equals("isnull")
        || v.op.equals("instanceof") || v.op.equals("not"));
  }
  V not(V v) {
    if (v.isInt()) return V.bool(v.intVal() == 0);
    if (v.is("not")) return v.a[0];
    return V.app("not", "Z", v);
  }

  private List<Path> branch(Path p, St[] s, int fallPc, int target) {
    List<Path> r = new ArrayList<>(2);
    if (s[0] != null) { Path q = p.with(s[0]); q.pc = fallPc; q.moved = true; r.add(q); }
    if (s[1] != null) { Path q = p.with(s[1]); q.pc = target; q.moved = true; r.add(q); }
    return r;
  }

  /** Routes a thrown value to the handlers of this frame. */
  private List<Path> raise(Frame f, Path p, St st, V exc, List<Out> outs) {
    List<Path> r = new ArrayList<>();
    if (f.m.m.tryCatchBlocks != null) {
      for (TryCatchBlockNode t : f.m.m.tryCatchBlocks) {
        int s = f.cfg.idx.get(t.start), e = f.cfg.idx.get(t.end);
        if (p.pc < s || p.pc >= e) continue;
        int h = f.cfg.idx.get(t.handler);
        if (t.type == null) { r.add(handler(p, st, exc, h)); return r; }
        String up = exc.type == null ? "java/lang/Throwable" : exc.type;
        Boolean sub = prog.subtype(up, t.type);
        if (Boolean.TRUE.equals(sub)) { r.add(handler(p, st, exc, h)); return r; }
        if (exc.k == V.K.OBJ && Boolean.FALSE.equals(sub)) continue;
        @SuppressWarnings("unchecked")
        List<String> not = exc.k == V.K.EXC ? (List<String>) exc.x : List.of();
        boolean excluded = false;
        for (String n : not) if (Boolean.TRUE.equals(prog.subtype(t.type, n))) excluded = true;
        if (excluded) continue;
        if (Boolean.FALSE.equals(prog.subtype(t.type, up))) continue; // unrelated classes
        St c = st.copy();
        if (exc.k == V.K.EXC) {
          r.add(handler(p, c, V.exc(exc.op, t.type, not), h));
          List<String> n2 = new ArrayList<>(not);
          n2.add(t.type);
          exc = V.exc(exc.op, up, n2);
        } else {
          r.add(handler(p, c, retype(exc, t.type), h));
        }
      }
    }
    outs.add(Out.thr(st, exc));
    return r;
  }
  private Path handler(Path p, St st, V exc, int h) {
    Path q = p.with(st);
    q.stack.clear();
    q.stack.add(exc);
    q.pc = h;
    q.moved = true;
    return q;
  }

  V newExc(String type, St st) { return V.obj(idPrefix + st.id(), type, site()); }

  /** Splits off the null case of a dereference; the exception is raised through res. */
  St deref(Path p, St st, V v, Frame f, List<Path> res, List<Out> outs) {
    Boolean d = st.decideNull(v);
    if (Boolean.TRUE.equals(d)) {
      res.addAll(raise(f, p, st, newExc("java/lang/NullPointerException", st), outs));
      return null;
    }
    if (d == null && mayBeNull(v)) {
      St n = st.copy();
      if (n.assume(St.isNull(v), true)) {
        n.note("deref " + v.key);
        res.addAll(raise(f, p, n, newExc("java/lang/NullPointerException", n), outs));
      }
      if (!st.assume(St.isNull(v), false)) return null;
    }
    return st;
  }
  boolean mayBeNull(V v) {
    if (v.nonNull) return false;
    if (derefUnknown) return true;
    switch (v.k) {
      case SYM: return nullable.contains(v.op);
      case APP: return v.op.startsWith("mapget") || v.op.startsWith("mapremove") || nullable.contains(v.op);
      case RES: return v.op.startsWith("queue.") || v.op.startsWith("map.");
      case LVAR: return true;
      case FLD: return nullable.contains(v.op);
      default: return false;
    }
  }

  // ---- instructions ------------------------------------------------------------------------

  /** Executes one instruction. Returns null when p was advanced in place, else the successor paths. */
  private List<Path> step(Frame f, Path p, List<Out> outs) {
    if (++steps > 40_000_000L) throw new Budget("instruction budget");
    AbstractInsnNode in = f.cfg.ins[p.pc];
    int op = in.getOpcode();
    cur = f;
    curPc = p.pc;
    if (op < 0) { p.pc++; p.moved = true; return null; }
    St st = p.st;
    switch (op) {
      case Opcodes.NOP: break;
      case Opcodes.ACONST_NULL: p.push(V.NULL); break;
      case Opcodes.ICONST_M1: case Opcodes.ICONST_0: case Opcodes.ICONST_1: case Opcodes.ICONST_2:
      case Opcodes.ICONST_3: case Opcodes.ICONST_4: case Opcodes.ICONST_5:
        p.push(V.num(op - Opcodes.ICONST_0)); break;
      case Opcodes.LCONST_0: case Opcodes.LCONST_1: p.push(V.lng(op - Opcodes.LCONST_0)); break;
      case Opcodes.FCONST_0: case Opcodes.FCONST_1: case Opcodes.FCONST_2:
        p.push(V.other((float) (op - Opcodes.FCONST_0), "F")); break;
      case Opcodes.DCONST_0: case Opcodes.DCONST_1: p.push(V.other((double) (op - Opcodes.DCONST_0), "D")); break;
      case Opcodes.BIPUSH: case Opcodes.SIPUSH: p.push(V.num(((IntInsnNode) in).operand)); break;
      case Opcodes.LDC: p.push(constant(((LdcInsnNode) in).cst)); break;
      case Opcodes.ILOAD: case Opcodes.LLOAD: case Opcodes.FLOAD: case Opcodes.DLOAD: case Opcodes.ALOAD: {
        V v = p.loc[((VarInsnNode) in).var];
        p.push(v == null ? V.res(st.id(), "undef", null) : v);
        break;
      }
      case Opcodes.ISTORE: case Opcodes.LSTORE: case Opcodes.FSTORE: case Opcodes.DSTORE: case Opcodes.ASTORE:
        p.loc[((VarInsnNode) in).var] = p.pop(); break;
      case Opcodes.IINC: {
        IincInsnNode ii = (IincInsnNode) in;
        p.loc[ii.var] = add(p.loc[ii.var], V.num(ii.incr));
        break;
      }
      case Opcodes.POP: p.pop(); break;
      case Opcodes.POP2: if (!p.pop().cat2()) p.pop(); break;
      case Opcodes.DUP: p.push(p.stack.get(p.stack.size() - 1)); break;
      case Opcodes.DUP_X1: { V a = p.pop(), b = p.pop(); p.push(a); p.push(b); p.push(a); break; }
      case Opcodes.DUP_X2: {
        V a = p.pop(), b = p.pop();
        if (b.cat2()) { p.push(a); p.push(b); p.push(a); }
        else { V c = p.pop(); p.push(a); p.push(c); p.push(b); p.push(a); }
        break;
      }
      case Opcodes.DUP2: {
        V a = p.pop();
        if (a.cat2()) { p.push(a); p.push(a); }
        else { V b = p.pop(); p.push(b); p.push(a); p.push(b); p.push(a); }
        break;
      }
      case Opcodes.DUP2_X1: {
        V a = p.pop(), b = p.pop();
        if (a.cat2()) { p.push(a); p.push(b); p.push(a); }
        else { V c = p.pop(); p.push(b); p.push(a); p.push(c); p.push(b); p.push(a); }
        break;
      }
      case Opcodes.SWAP: { V a = p.pop(), b = p.pop(); p.push(a); p.push(b); break; }
      case Opcodes.IADD: case Opcodes.LADD: { V b = p.pop(), a = p.pop(); p.push(add(a, b)); break; }
      case Opcodes.ISUB: case Opcodes.LSUB: {
        V b = p.pop(), a = p.pop();
        p.push(b.isInt() ? add(a, num(-b.intVal(), b.type)) : V.app("-", a.type, a, b));
        break;
      }
      case Opcodes.IMUL: case Opcodes.LMUL: case Opcodes.IDIV: case Opcodes.LDIV: case Opcodes.IREM: case Opcodes.LREM:
      case Opcodes.ISHL: case Opcodes.ISHR: case Opcodes.IUSHR: case Opcodes.LSHL: case Opcodes.LSHR: case Opcodes.LUSHR:
      case Opcodes.FADD: case Opcodes.DADD: case Opcodes.FSUB: case Opcodes.DSUB: case Opcodes.FMUL: case Opcodes.DMUL:
      case Opcodes.FDIV: case Opcodes.DDIV: case Opcodes.FREM: case Opcodes.DREM: {
        V b = p.pop(), a = p.pop();
        p.push(arith(op, a, b));
        break;
      }
      case Opcodes.INEG: case Opcodes.LNEG: { V a = p.pop(); p.push(a.isInt() ? num(-a.intVal(), a.type) : V.app("neg", a.type, a)); break; }
      case Opcodes.FNEG: case Opcodes.DNEG: { V a = p.pop(); p.push(V.app("neg", a.type, a)); break; }
      case Opcodes.IAND: case Opcodes.IOR: case Opcodes.IXOR: case Opcodes.LAND: case Opcodes.LOR: case Opcodes.LXOR: {
        V b = p.pop(), a = p.pop();
        if (isBool(a) || isBool(b)) {
          return bitBool(p, op, a, b);
        }
        p.push(arith(op, a, b));
        break;
      }
      case Opcodes.I2L: { V a = p.pop(); p.push(a.isInt() ? V.lng(a.intVal()) : V.app("+", "J", a, V.lng(0))); break; }
      case Opcodes.L2I: { V a = p.pop(); p.push(a.isInt() ? V.num((int) a.intVal()) : V.app("l2i", "I", a)); break; }
      case Opcodes.I2B: case Opcodes.I2C: case Opcodes.I2S: break;
      case Opcodes.I2F: case Opcodes.L2F: case Opcodes.D2F: { V a = p.pop(); p.push(V.app("conv", "F", a)); break; }
      case Opcodes.I2D: case Opcodes.L2D: case Opcodes.F2D: { V a = p.pop(); p.push(V.app("conv", "D", a)); break; }
      case Opcodes.F2I: case Opcodes.D2I: { V a = p.pop(); p.push(V.app("conv", "I", a)); break; }
      case Opcodes.F2L: case Opcodes.D2L: { V a = p.pop(); p.push(V.app("conv", "J", a)); break; }
      case Opcodes.LCMP: case Opcodes.FCMPL: case Opcodes.FCMPG: case Opcodes.DCMPL: case Opcodes.DCMPG: {
        V b = p.pop(), a = p.pop();
        p.push(op == Opcodes.LCMP ? V.app("-", "I", a, b) : V.app("fcmp", "I", a, b));
        break;
      }
      case Opcodes.IFEQ: case Opcodes.IFNE: case Opcodes.IFLT: case Opcodes.IFGE: case Opcodes.IFGT: case Opcodes.IFLE: {
        V v = p.pop();
        int t = f.cfg.idx.get(((JumpInsnNode) in).label);
        if (op == Opcodes.IFEQ || op == Opcodes.IFNE) {
          if (!v.isInt() && isBool(v)) {
            St[] s = split(st, v);
            return op == Opcodes.IFNE ? branch(p, s, p.pc + 1, t) : branch(p, new St[]{s[1], s[0]}, p.pc + 1, t);
          }
        }
        String o = op == Opcodes.IFEQ ? "==" : op == Opcodes.IFNE ? "!=" : op == Opcodes.IFLT ? "<" : op == Opcodes.IFGE ? ">="
            : op == Opcodes.IFGT ? ">" : "<=";
        return branch(p, splitCmp(st, o, v, V.num(0)), p.pc + 1, t);
      }
      case Opcodes.IF_ICMPEQ: case Opcodes.IF_ICMPNE: case Opcodes.IF_ICMPLT: case Opcodes.IF_ICMPGE:
      case Opcodes.IF_ICMPGT: case Opcodes.IF_ICMPLE: {
        V b = p.pop(), a = p.pop();
        int t = f.cfg.idx.get(((JumpInsnNode) in).label);
        boolean eqop = op == Opcodes.IF_ICMPEQ || op == Opcodes.IF_ICMPNE;
        if (eqop && (isBool(a) || isBool(b))) {
          List<Path> r = new ArrayList<>();
          St[] sa = split(st, a);
          for (int i = 0; i < 2; i++) {
            if (sa[i] == null) continue;
            St[] sb = split(sa[i], b);
            for (int j = 0; j < 2; j++) {
              if (sb[j] == null) continue;
              Path q = p.with(sb[j]);
              q.pc = (i == j) == (op == Opcodes.IF_ICMPEQ) ? t : p.pc + 1;
              q.moved = true;
              r.add(q);
            }
          }
          return r;
        }
        String o = op == Opcodes.IF_ICMPEQ ? "==" : op == Opcodes.IF_ICMPNE ? "!=" : op == Opcodes.IF_ICMPLT ? "<"
            : op == Opcodes.IF_ICMPGE ? ">=" : op == Opcodes.IF_ICMPGT ? ">" : "<=";
        return branch(p, splitCmp(st, o, a, b), p.pc + 1, t);
      }
      case Opcodes.IF_ACMPEQ: case Opcodes.IF_ACMPNE: {
        V b = p.pop(), a = p.pop();
        int t = f.cfg.idx.get(((JumpInsnNode) in).label);
        V c = lib.sameAtom(st, a, b);
        St[] s = split(st, c);
        return op == Opcodes.IF_ACMPEQ ? branch(p, s, p.pc + 1, t) : branch(p, new St[]{s[1], s[0]}, p.pc + 1, t);
      }
      case Opcodes.IFNULL: case Opcodes.IFNONNULL: {
        V v = p.pop();
        int t = f.cfg.idx.get(((JumpInsnNode) in).label);
        St[] s = split(st, St.isNull(v));
        return op == Opcodes.IFNULL ? branch(p, s, p.pc + 1, t) : branch(p, new St[]{s[1], s[0]}, p.pc + 1, t);
      }
      case Opcodes.GOTO: p.pc = f.cfg.idx.get(((JumpInsnNode) in).label); p.moved = true; return null;
      case Opcodes.TABLESWITCH: case Opcodes.LOOKUPSWITCH: return doSwitch(f, p, in);
      case Opcodes.IRETURN: case Opcodes.LRETURN: case Opcodes.FRETURN: case Opcodes.DRETURN: case Opcodes.ARETURN:
        outs.add(Out.ret(st, p.pop()));
        return List.of();
      case Opcodes.RETURN: outs.add(Out.ret(st, null)); return List.of();
      case Opcodes.GETSTATIC: {
        FieldInsnNode fi = (FieldInsnNode) in;
        p.push(readField(st, V.sym("static:" + prog.fieldOwner(fi.owner, fi.name), null).nn(), fi.owner, fi.name, fi.desc));
        break;
      }
      case Opcodes.PUTSTATIC: {
        FieldInsnNode fi = (FieldInsnNode) in;
        V v = p.pop();
        writeField(f, st, V.sym("static:" + prog.fieldOwner(fi.owner, fi.name), null).nn(), fi.owner, fi.name, v);
        break;
      }
      case Opcodes.GETFIELD: {
        FieldInsnNode fi = (FieldInsnNode) in;
        V b = p.pop();
        List<Path> res = new ArrayList<>();
        St s = deref(p, st, b, f, res, outs);
        if (s == null) return res;
        p.push(readField(s, b, fi.owner, fi.name, fi.desc));
        if (!res.isEmpty()) { p.pc++; p.moved = true; res.add(p); return res; }
        break;
      }
      case Opcodes.PUTFIELD: {
        FieldInsnNode fi = (FieldInsnNode) in;
        V v = p.pop(), b = p.pop();
        List<Path> res = new ArrayList<>();
        St s = deref(p, st, b, f, res, outs);
        if (s == null) return res;
        writeField(f, s, b, fi.owner, fi.name, v);
        if (!res.isEmpty()) { p.pc++; p.moved = true; res.add(p); return res; }
        break;
      }
      case Opcodes.NEW: {
        String t = ((TypeInsnNode) in).desc;
        V o = V.obj(idPrefix + st.id(), t, f.site(p.pc));
        initFields(st, o, t);
        p.push(o);
        break;
      }
      case Opcodes.NEWARRAY: case Opcodes.ANEWARRAY: {
        V len = p.pop();
        String t = op == Opcodes.ANEWARRAY ? "[L" + ((TypeInsnNode) in).desc + ";" : "[I";
        V o = V.obj(idPrefix + st.id(), t, f.site(p.pc));
        if (len.isInt() && len.intVal() <= 64) {
          V[] el = new V[(int) len.intVal()];
          Arrays.fill(el, op == Opcodes.ANEWARRAY ? V.NULL : V.FALSE);
          st.put(o, "$list", V.app("listdata", null, el));
        }
        p.push(o);
        break;
      }
      case Opcodes.ARRAYLENGTH: { V a = p.pop(); p.push(lib.size(st, a)); break; }
      case Opcodes.AALOAD: case Opcodes.IALOAD: case Opcodes.LALOAD: case Opcodes.BALOAD: case Opcodes.CALOAD:
      case Opcodes.SALOAD: case Opcodes.FALOAD: case Opcodes.DALOAD: {
        V i = p.pop(), a = p.pop();
        p.push(lib.elemAt(st, a, i));
        break;
      }
      case Opcodes.AASTORE: case Opcodes.IASTORE: case Opcodes.LASTORE: case Opcodes.BASTORE: case Opcodes.CASTORE:
      case Opcodes.SASTORE: case Opcodes.FASTORE: case Opcodes.DASTORE: {
        V v = p.pop(), i = p.pop(), a = p.pop();
        V d = st.get(a, "$list");
        if (d != null && i.isInt() && i.intVal() >= 0 && i.intVal() < d.a.length) {
          V[] el = d.a.clone();
          el[(int) i.intVal()] = v;
          st.put(a, "$list", V.app("listdata", null, el));
        } else {
          st.drop(a, "$list");
          eff(Eff.K.MUT, "array.store", a, List.of(i, v), st);
        }
        break;
      }
      case Opcodes.CHECKCAST: {
        V v = p.pop();
        String t = ((TypeInsnNode) in).desc;
        if (v.type == null || "java/lang/Object".equals(v.type)) v = retype(v, t);
        else if (v.k != V.K.OBJ && prog.inApp(t) && !Boolean.TRUE.equals(prog.subtype(v.type, t))) {
          // a real downcast: fails for values of another type
          V io = V.app("instanceof", "Z", v, V.cls(t));
          Boolean d = st.decide(io);
          if (d == null && Boolean.TRUE.equals(prog.subtype(t, v.type))) {
            Boolean nul = st.decideNull(v);
            St bad = st.copy();
            List<Path> res = new ArrayList<>();
            if (!Boolean.TRUE.equals(nul) && bad.assume(io, false))
              res.addAll(raise(f, p, bad, newExc("java/lang/ClassCastException", bad), outs));
            if (nul != null && !nul) st.assume(io, true);
            p.push(retype(v, t));
            p.pc++;
            p.moved = true;
            res.add(p);
            return res;
          }
          v = retype(v, t);
        }
        p.push(v);
        break;
      }
      case Opcodes.INSTANCEOF: {
        V v = p.pop();
        p.push(lib.instanceOf(st, v, ((TypeInsnNode) in).desc));
        break;
      }
      case Opcodes.MONITORENTER: lock(st, p.pop()); break;
      case Opcodes.MONITOREXIT: unlock(st, p.pop()); break;
      case Opcodes.ATHROW: {
        V e = p.pop();
        List<Path> res = new ArrayList<>();
        Boolean nul = st.decideNull(e);
        if (Boolean.TRUE.equals(nul)) e = newExc("java/lang/NullPointerException", st);
        return raise(f, p, st, e, outs);
      }
      case Opcodes.INVOKEDYNAMIC: {
        InvokeDynamicInsnNode id = (InvokeDynamicInsnNode) in;
        Type[] ts = Type.getArgumentTypes(id.desc);
        V[] args = new V[ts.length];
        for (int i = ts.length - 1; i >= 0; i--) args[i] = typed(p.pop(), internal(ts[i]));
        if (id.bsm.getOwner().equals("java/lang/runtime/ObjectMethods")) {
          List<Path> res = new ArrayList<>();
          for (Out o : record(id.name, id, args, st)) {
            if (o.exc != null) { res.addAll(raise(f, p, o.st, o.exc, outs)); continue; }
            Path q = p.with(o.st);
            q.push(typed(o.val, ret(id.desc)));
            q.pc = p.pc + 1;
            q.moved = true;
            res.add(q);
          }
          return res;
        }
        p.push(indy(st, id, args));
        break;
      }
      case Opcodes.INVOKEVIRTUAL: case Opcodes.INVOKESPECIAL: case Opcodes.INVOKESTATIC: case Opcodes.INVOKEINTERFACE: {
        MethodInsnNode mi = (MethodInsnNode) in;
        Type[] ts = Type.getArgumentTypes(mi.desc);
        int n = ts.length + (op == Opcodes.INVOKESTATIC ? 0 : 1);
        V[] args = new V[n];
        for (int i = ts.length - 1; i >= 0; i--) args[n - ts.length + i] = p.pop();
        if (op != Opcodes.INVOKESTATIC) args[0] = p.pop();
        List<Path> res = new ArrayList<>();
        if (op == Opcodes.INVOKEVIRTUAL || op == Opcodes.INVOKEINTERFACE) {
          st = deref(p, st, args[0], f, res, outs);
          if (st == null) return res;
          p.st = st;
        }
        List<Out> os = invoke(op, mi.owner, mi.name, mi.desc, args, st);
        cur = f;
        curPc = p.pc;
        boolean vd = mi.desc.endsWith(")V");
        String rt = ret(mi.desc);
        for (Out o : os) {
          if (o.exc != null) res.addAll(raise(f, p, o.st, o.exc, outs));
          else {
            Path q = os.size() == 1 ? p.with(o.st) : p.with(o.st);
            if (!vd) q.push(o.val == null ? V.res(o.st.id(), mi.name, rt) : typed(o.val, rt));
            q.pc = p.pc + 1;
            q.moved = true;
            res.add(q);
          }
        }
        return res;
      }
      case Opcodes.MULTIANEWARRAY: {
        MultiANewArrayInsnNode ma = (MultiANewArrayInsnNode) in;
        for (int i = 0; i < ma.dims; i++) p.pop();
        p.push(V.obj(idPrefix + st.id(), ma.desc, f.site(p.pc)));
        break;
      }
      default:
        st.note("opcode " + op);
        unmodelled.add("opcode " + op);
    }
    p.pc++;
    p.moved = true;
    return null;
  }

  private List<Path> bitBool(Path p, int op, V a, V b) {
    List<Path> r = new ArrayList<>();
    St[] sa = splitBool(p.st, a);
    for (int i = 0; i < 2; i++) {
      if (sa[i] == null) continue;
      St[] sb = splitBool(sa[i], b);
      for (int j = 0; j < 2; j++) {
        if (sb[j] == null) continue;
        Path q = p.with(sb[j]);
        int v = op == Opcodes.IAND ? i & j : op == Opcodes.IOR ? i | j : i ^ j;
        q.push(V.num(v));
        q.pc++;
        q.moved = true;
        r.add(q);
      }
    }
    return r;
  }

  private St[] splitBool(St st, V v) { return isBool(v) || v.isInt() ? split(st, v) : splitCmp(st, "!=", v, V.num(0)); }

  static V num(long v, String t) { return "J".equals(t) ? V.lng(v) : V.num((int) v); }
  static V add(V a, V b) {
    if (a.isInt() && b.isInt()) return num(a.intVal() + b.intVal(), a.type);
    if (a.isInt()) { V t = a; a = b; b = t; }
    if (b.isInt()) {
      if (b.intVal() == 0) return a;
      if (a.is("+") && a.a[1].isInt()) return add(a.a[0], num(a.a[1].intVal() + b.intVal(), b.type));
    } else if (a.key.compareTo(b.key) > 0) { V t = a; a = b; b = t; }
    return V.app("+", a.type == null || a.type.equals("Z") ? "I" : a.type, a, b);
  }
  private V arith(int op, V a, V b) {
    if (a.isInt() && b.isInt()) {
      long x = a.intVal(), y = b.intVal();
      switch (op) {
        case Opcodes.IMUL: case Opcodes.LMUL: return num(x * y, a.type);
        case Opcodes.IAND: case Opcodes.LAND: return num(x & y, a.type);
        case Opcodes.IOR: case Opcodes.LOR: return num(x | y, a.type);
        case Opcodes.IXOR: case Opcodes.LXOR: return num(x ^ y, a.type);
        case Opcodes.IDIV: case Opcodes.LDIV: if (y != 0) return num(x / y, a.type); break;
        case Opcodes.IREM: case Opcodes.LREM: if (y != 0) return num(x % y, a.type); break;
        default:
      }
    }
    return V.app(op == Opcodes.IMUL || op == Opcodes.LMUL ? "*" : "op" + op, a.type, a, b);
  }

  private List<Path> doSwitch(Frame f, Path p, AbstractInsnNode in) {
    V v = p.pop();
    List<Integer> keys = new ArrayList<>();
    List<LabelNode> labels;
    LabelNode dflt;
    if (in instanceof TableSwitchInsnNode) {
      TableSwitchInsnNode t = (TableSwitchInsnNode) in;
      labels = t.labels;
      dflt = t.dflt;
      for (int i = t.min; i <= t.max; i++) keys.add(i);
    } else {
      LookupSwitchInsnNode t = (LookupSwitchInsnNode) in;
      labels = t.labels;
      dflt = t.dflt;
      keys = t.keys;
    }
    List<Path> r = new ArrayList<>();
    if (v.is("hashCode")) {
      // a switch on a string: the hash decides nothing, the equals tests that follow do
      V s = v.a[0];
      List<List<V>> consts = new ArrayList<>();
      for (LabelNode l : labels) consts.add(stringsAt(f, f.cfg.idx.get(l)));
      for (int i = 0; i <= labels.size(); i++) {
        St st = p.st.copy();
        boolean ok = true;
        for (int j = 0; j < labels.size() && ok; j++)
          if (j != i) for (V c : consts.get(j)) ok = ok && st.assume(St.equalsTo(s, c), false);
        if (!ok) continue;
        Path q = p.with(st);
        q.pc = f.cfg.idx.get(i < labels.size() ? labels.get(i) : dflt);
        q.moved = true;
        r.add(q);
      }
      return r;
    }
    St rest = p.st;
    for (int i = 0; i < labels.size() && rest != null; i++) {
      St[] s = splitCmp(rest, "==", v, V.num(keys.get(i)));
      if (s[1] != null) {
        Path q = p.with(s[1]);
        q.pc = f.cfg.idx.get(labels.get(i));
        q.moved = true;
        r.add(q);
      }
      rest = s[0];
    }
    if (rest != null) {
      Path q = p.with(rest);
      q.pc = f.cfg.idx.get(dflt);
      q.moved = true;
      r.add(q);
    }
    return r;
  }
  private List<V> stringsAt(Frame f, int pc) {
    List<V> r = new ArrayList<>();
    for (int i = pc; i < f.cfg.n - 1; i++) {
      AbstractInsnNode in = f.cfg.ins[i];
      if (in instanceof LdcInsnNode && ((LdcInsnNode) in).cst instanceof String) {
        AbstractInsnNode nx = f.cfg.ins[i + 1];
        if (nx instanceof MethodInsnNode && ((MethodInsnNode) nx).name.equals("equals")) {
          r.add(V.str((String) ((LdcInsnNode) in).cst));
          continue;
        }
      }
      if (in.getOpcode() == Opcodes.GOTO) break;
      if (in instanceof TableSwitchInsnNode || in instanceof LookupSwitchInsnNode) break;
    }
    return r;
  }

  V constant(Object c) {
    if (c instanceof Integer) return V.num((Integer) c);
    if (c instanceof Long) return V.lng((Long) c);
    if (c instanceof String) return V.str((String) c);
    if (c instanceof Type) return V.cls(((Type) c).getInternalName());
    if (c instanceof Float) return V.other(c, "F");
    if (c instanceof Double) return V.other(c, "D");
    return V.other(c, null);
  }

  private V indy(St st, InvokeDynamicInsnNode id, V[] args) {
    if (id.bsm.getOwner().equals("java/lang/invoke/LambdaMetafactory")) {
      Handle h = (Handle) id.bsmArgs[1];
      return V.lam(h, V.shortName(h.getOwner()) + "::" + h.getName() + "@" + site(), id.name, ret(id.desc), args);
    }
    if (id.bsm.getOwner().equals("java/lang/invoke/StringConcatFactory")) {
      V[] all = new V[args.length + 1];
      all[0] = id.bsmArgs.length > 0 && id.bsmArgs[0] instanceof String ? V.str((String) id.bsmArgs[0]) : V.str("");
      System.arraycopy(args, 0, all, 1, args.length);
      return V.app("concat", "java/lang/String", all);
    }
    st.note("invokedynamic " + id.bsm.getOwner());
    unmodelled.add("invokedynamic " + id.bsm.getOwner());
    return V.res(st.id(), "indy", ret(id.desc));
  }

  void initFields(St st, V o, String t) {
    for (String c = t; c != null && prog.inApp(c); c = prog.classes.get(c).superName) {
      for (FieldNode fn : prog.classes.get(c).fields) {
        if ((fn.access & Opcodes.ACC_STATIC) != 0) continue;
        char d = fn.desc.charAt(0);
        st.put(o, fn.name, d == 'L' || d == '[' ? V.NULL : d == 'J' ? V.lng(0)
            : d == 'F' || d == 'D' ? V.other(0.0, fn.desc) : V.num(0));
      }
    }
  }

  V readField(St st, V base, String owner, String name, String desc) {
    String type = internal(Type.getType(desc));
    String o = prog.fieldOwner(owner, name);
    if (conc && shared.contains(V.shortName(o) + "." + name)) {
      V v = st.locks.isEmpty() ? null : st.get(base, name);
      if (v == null) {
        v = V.fld(base, name, type, st.id());
        if (!st.locks.isEmpty()) st.put(base, name, v);
      }
      Eff e = eff(Eff.K.READ, V.shortName(o) + "." + name, base, List.of(), st);
      e.res = v;
      return v;
    }
    if (name.equals("$assertionsDisabled")) return V.TRUE;
    V v = st.get(base, name);
    if (v == null) {
      if (!prog.inApp(o)) {
        v = V.app("static", type, V.str(V.shortName(o) + "." + name));
        v.nonNull = true;
      } else v = V.fld(base, name, type, 0);
    }
    return typed(v, type);
  }

  void writeField(Frame f, St st, V base, String owner, String name, V v) {
    String o = V.shortName(prog.fieldOwner(owner, name));
    boolean ctor = (f.m.m.name.equals("<init>") || f.m.m.name.equals("<clinit>")) && St.fresh(base)
        || base.k == V.K.SYM && f.m.m.name.equals("<clinit>");
    if (!ctor) eff(Eff.K.WRITE, o + "." + name, base, List.of(v), st);
    if (conc && shared.contains(o + "." + name) && st.locks.isEmpty()) st.drop(base, name);
    else st.put(base, name, v);
  }

  // ---- calls -------------------------------------------------------------------------------

  List<Out> invoke(int opc, String owner, String name, String desc, V[] args, St st) {
    V recv = opc == Opcodes.INVOKESTATIC ? null : args[0];
    // functional values
    if (recv != null && recv.k == V.K.LAM && opc != Opcodes.INVOKESPECIAL) {
      if (name.equals(recv.op)) return callLam(recv, Arrays.copyOfRange(args, 1, args.length), st);
    }
    boolean app = prog.inApp(owner);
    if (recv != null && (isEnum(recv.type) || isEnum(owner)) && !name.equals("<init>")) {
      List<Out> r = enumCall(opc, owner, name, desc, args, st);
      if (r != null) return r;
    }
    String rt = recv == null ? null : recv.type;
    boolean exact = recv != null && recv.k == V.K.OBJ && prog.inApp(rt);
    if (opc != Opcodes.INVOKESPECIAL && recv != null && isObjectMethod(name, desc)) {
      boolean knownApp = (exact || prog.inApp(rt) && prog.isFinal(rt)) && inlineEquals && !name.equals("getClass")
          && prog.resolve(rt, name, desc) != null;
      if (!knownApp) return lib.objectMethod(name, recv, args, st);
    }
    if (!app && exact && opc != Opcodes.INVOKESPECIAL) {
      // library interface implemented by an in-program class
      Prog.M m = prog.resolve(rt, name, desc);
      if (m != null && !m.isAbstract()) return inline(m, args, st);
      m = bySam(rt, name, args.length);
      if (m != null) return inline(m, args, st);
    }
    if (app && opc == Opcodes.INVOKESPECIAL && prog.resolve(owner, name, desc) == null) app = false;
    if (!app) return lib.call(opc, owner, name, desc, args, st);

    String root = recv == null || name.equals("<init>") ? owner : prog.rootDeclarer(exact ? rt : owner, name, desc);
    String op = V.shortName(root) + "." + name;
    String op2 = V.shortName(owner) + "." + name;
    if (boundary.contains(op) || boundary.contains(op2)) return external(op, recv, args, desc, st);
    if (opc == Opcodes.INVOKESTATIC || opc == Opcodes.INVOKESPECIAL) {
      Prog.M m = prog.resolve(owner, name, desc);
      if (m == null || m.isAbstract()) return external(op, recv, args, desc, st);
      return inline(m, args, st);
    }
    if (exact) {
      Prog.M m = prog.resolve(rt, name, desc);
      if (m == null || m.isAbstract()) m = bridged(rt, name, desc);
      if (m != null && !m.isAbstract()) return inline(m, args, st);
      return external(op, recv, args, desc, st);
    }
    // not exact: inline when class hierarchy analysis leaves one body
    String t = prog.inApp(rt) && Boolean.TRUE.equals(prog.subtype(rt, owner)) ? rt : owner;
    if (prog.isInterface(t)) {
      Prog.M m = prog.resolve(t, name, desc);
      if (m != null && !m.isAbstract() && prog.allSubs(t).isEmpty()) return inline(m, args, st);
      return external(op, recv, args, desc, st);
    }
    Prog.M m = prog.resolve(t, name, desc);
    if (m == null || m.isAbstract()) return external(op, recv, args, desc, st);
    for (String s : prog.allSubs(t)) {
      if (prog.declared(s, name, desc) != null) return external(op, recv, args, desc, st);
    }
    return inline(m, args, st);
  }

  private boolean isObjectMethod(String n, String d) {
    return n.equals("equals") && d.equals("(Ljava/lang/Object;)Z") || n.equals("hashCode") && d.equals("()I")
        || n.equals("toString") && d.equals("()Ljava/lang/String;") || n.equals("getClass") && d.startsWith("()");
  }

  /** The method of a class that implements a (possibly generic) abstract method of the same name and arity. */
  Prog.M bySam(String cls, String name, int argsWithRecv) {
    for (String c = cls; c != null && prog.inApp(c); c = prog.classes.get(c).superName) {
      for (MethodNode m : prog.classes.get(c).methods) {
        if (m.name.equals(name) && (m.access & Opcodes.ACC_STATIC) == 0 && (m.access & Opcodes.ACC_ABSTRACT) == 0
            && (m.access & Opcodes.ACC_BRIDGE) == 0
            && Type.getArgumentTypes(m.desc).length == argsWithRecv - 1) return prog.declared(c, m.name, m.desc);
      }
    }
    return null;
  }
  private Prog.M bridged(String cls, String name, String desc) {
    return bySam(cls, name, Type.getArgumentTypes(desc).length + 1);
  }

  List<Out> inline(Prog.M m, V[] args, St st) {
    callsInlined++;
    return run(m, args, st);
  }

  List<Out> callLam(V lam, V[] args, St st) {
    Handle h = (Handle) lam.x;
    V[] all = new V[lam.a.length + args.length];
    System.arraycopy(lam.a, 0, all, 0, lam.a.length);
    System.arraycopy(args, 0, all, lam.a.length, args.length);
    switch (h.getTag()) {
      case Opcodes.H_INVOKESTATIC: return invoke(Opcodes.INVOKESTATIC, h.getOwner(), h.getName(), h.getDesc(), all, st);
      case Opcodes.H_INVOKESPECIAL: return invoke(Opcodes.INVOKESPECIAL, h.getOwner(), h.getName(), h.getDesc(), all, st);
      case Opcodes.H_INVOKEVIRTUAL: return invoke(Opcodes.INVOKEVIRTUAL, h.getOwner(), h.getName(), h.getDesc(), all, st);
      case Opcodes.H_INVOKEINTERFACE: return invoke(Opcodes.INVOKEINTERFACE, h.getOwner(), h.getName(), h.getDesc(), all, st);
      case Opcodes.H_NEWINVOKESPECIAL: {
        V o = V.obj(idPrefix + st.id(), h.getOwner(), site());
        initFields(st, o, h.getOwner());
        V[] a2 = new V[all.length + 1];
        a2[0] = o;
        System.arraycopy(all, 0, a2, 1, all.length);
        List<Out> r = new ArrayList<>();
        for (Out x : invoke(Opcodes.INVOKESPECIAL, h.getOwner(), "<init>", h.getDesc(), a2, st))
          r.add(x.exc != null ? x : Out.ret(x.st, o));
        return r;
      }
      default:
        st.note("method handle kind");
        return List.of(Out.ret(st, V.res(st.id(), "handle", null)));
    }
  }

  /** Calls a functional value: a lambda, an in-program object or an unknown one. */
  static boolean composed(V fn) {
    return fn.k == V.K.APP && Set.of("identity", "isEqual", "negate", "and", "or", "andThen", "compose", "sink").contains(fn.op);
  }
  List<Out> callFn(V fn, String iface, String sam, String desc, V[] args, St st) {
    if (fn.k == V.K.LAM) return callLam(fn, args, st);
    V[] all = new V[args.length + 1];
    all[0] = fn;
    System.arraycopy(args, 0, all, 1, args.length);
    if (fn.k == V.K.OBJ && prog.inApp(fn.type)) {
      Prog.M m = bySam(fn.type, sam, all.length);
      if (m != null) return inline(m, all, st);
    }
    if (composed(fn)) {
      List<Out> r = new ArrayList<>();
      switch (fn.op) {
        case "identity": return List.of(Out.ret(st, args[0]));
        case "isEqual": return lib.objectEquals(fn.a[0], args[0], st);
        case "sink": {
          List<V> l = new ArrayList<>(Arrays.asList(st.get(fn.a[0], "$list").a));
          l.add(args[0]);
          lib.setList(st, fn.a[0], l);
          return List.of(Out.ret(st, null));
        }
        case "negate":
          for (Out o : callFn(fn.a[0], iface, sam, desc, args, st)) r.add(o.exc != null ? o : Out.ret(o.st, not(lib.boolTerm(o.val))));
          return r;
        case "and": case "or":
          for (Out o : callFn(fn.a[0], iface, sam, desc, args, st)) {
            if (o.exc != null) { r.add(o); continue; }
            St[] s = split(o.st, lib.boolTerm(o.val));
            boolean and = fn.op.equals("and");
            if (s[and ? 0 : 1] != null) r.add(Out.ret(s[and ? 0 : 1], V.bool(!and)));
            if (s[and ? 1 : 0] != null) r.addAll(callFn(fn.a[1], iface, sam, desc, args, s[and ? 1 : 0]));
          }
          return r;
        default: { // andThen, compose
          boolean then = fn.op.equals("andThen");
          V first = then ? fn.a[0] : fn.a[1], second = then ? fn.a[1] : fn.a[0];
          boolean cons = desc.endsWith(")V");
          for (Out o : callFn(first, iface, sam, desc, args, st)) {
            if (o.exc != null) r.add(o);
            else r.addAll(callFn(second, iface, sam, desc, cons ? args : new V[]{o.val}, o.st));
          }
          return r;
        }
      }
    }
    String t = fn.type == null ? iface : fn.type;
    return external(V.shortName(t) + "." + sam, fn, all, desc, st);
  }

  /** A call whose body is not analysed: an effect that returns an unknown result or throws. */
  List<Out> external(String op, V recv, V[] args, String desc, St st) {
    callsExternal++;
    List<V> a = new ArrayList<>(Arrays.asList(args));
    if (recv != null) a.remove(0);
    String name = op.substring(op.indexOf('.') + 1);
    String rt = ret(desc);
    boolean getter = a.isEmpty() && !"V".equals(rt) && (name.startsWith("get") || name.startsWith("is")) && recv != null;
    if (getter) return List.of(Out.ret(st, V.app(name, rt, recv)));
    List<Out> r = new ArrayList<>();
    boolean thr = !nonThrowing.contains(op);
    if (thr) {
      St s2 = st.copy();
      Eff e = eff(Eff.K.CALL, op, recv, a, s2);
      V exc = V.exc(idPrefix + s2.id() + ":" + op, "java/lang/Throwable", List.of());
      e.thrown = exc;
      if (conc && !s2.locks.isEmpty()) dropShared(s2);
      meanwhile(op, s2);
      r.add(Out.thr(s2, exc));
      forks++;
    }
    Eff e = eff(Eff.K.CALL, op, recv, a, st);
    V res = null;
    if (!"V".equals(rt)) {
      res = V.res(st.id(), op, rt);
      e.res = res;
    }
    if (conc && !st.locks.isEmpty()) dropShared(st);
    meanwhile(op, st);
    r.add(0, Out.ret(st, res));
    return r;
  }
  void meanwhile(String op, St st) {
    java.util.function.Consumer<St> c = after.get(op);
    if (c != null) c.accept(st);
  }
}
