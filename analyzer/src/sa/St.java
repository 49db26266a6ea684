package sa;

import java.util.*;

/** One observable effect on a path. */
final class Eff {
  enum K { CALL, WRITE, READ, CAS, LOOP, LOCK, UNLOCK, LOG, MUT, ITER }
  final K k;
  final String op;
  final V recv;
  final List<V> args;
  V res;
  V thrown;
  final String site;
  final List<V> locks;
  final int region;      // identity of the innermost critical section, 0 when none
  St snap;               // state just before the effect
  Loop loop;
  String chain;

  Eff(K k, String op, V recv, List<V> args, String site, List<V> locks, int region) {
    this.k = k; this.op = op; this.recv = recv; this.args = args; this.site = site;
    this.locks = locks; this.region = region;
  }
  boolean is(String o) { return op.equals(o); }
  boolean call(String o) { return k == K.CALL && op.equals(o); }
  V arg(int i) { return i < args.size() ? args.get(i) : null; }

  @Override public String toString() {
    String s = k + " " + op + (recv == null ? "" : " on " + recv) + " " + args;
    if (res != null) s += " -> " + res;
    if (thrown != null) s += " throws " + thrown;
    if (loop != null) s += " " + loop;
    return s + " @" + site;
  }
}

/** A widened loop: any number of the recorded iterations, in any order, happen before the exit. */
final class Loop {
  final int id;
  final String site;
  final Map<String, V> init = new LinkedHashMap<>();
  final List<Iter> iters = new ArrayList<>();
  final Map<String, V> carried = new LinkedHashMap<>(); // variables that hold what was last taken from a queue, or null
  int start; // trace index of the LOOP effect
  Loop(int id, String site) { this.id = id; this.site = site; }

  static final class Iter {
    final List<Eff> effs;
    final St end;
    final St begin;
    final Map<String, V> upd;
    Iter(List<Eff> e, St b, St s, Map<String, V> u) { effs = e; begin = b; end = s; upd = u; }
  }
  @Override public String toString() { return "loop" + id + "(" + iters.size() + " iteration paths)"; }
}

/** State of one path: heap cells, facts, effects so far, held locks. */
final class St {
  static final class Cell {
    final V base; final String f; final V val;
    Cell(V b, String f, V v) { base = b; this.f = f; val = v; }
  }
  HashMap<String, Cell> heap;
  HashMap<String, Boolean> facts;
  HashMap<String, V> atoms;
  HashMap<String, long[]> ivl;
  ArrayList<Eff> trace;
  ArrayList<V> locks;
  int region;
  int[] next;            // per-path counter
  TreeSet<String> notes;
  boolean sym;           // a symbolic iteration decision was taken (loop probing)

  St() {
    heap = new HashMap<>(); facts = new HashMap<>(); atoms = new HashMap<>(); ivl = new HashMap<>();
    trace = new ArrayList<>(); locks = new ArrayList<>(); next = new int[]{1}; notes = new TreeSet<>();
  }

  St copy() {
    St s = new St(false);
    s.heap = new HashMap<>(heap); s.facts = new HashMap<>(facts); s.atoms = new HashMap<>(atoms);
    s.ivl = new HashMap<>(ivl);
    s.trace = new ArrayList<>(trace); s.locks = new ArrayList<>(locks); s.region = region;
    s.next = new int[]{next[0]}; s.notes = new TreeSet<>(notes); s.sym = sym;
    return s;
  }
  private St(boolean x) { }

  int id() { return next[0]++; }
  V get(V base, String f) {
    Cell c = heap.get(base.key + "." + f);
    return c == null ? null : c.val;
  }
  void put(V base, String f, V v) { heap.put(base.key + "." + f, new Cell(base, f, v)); }
  void drop(V base, String f) { heap.remove(base.key + "." + f); }
  void note(String n) { notes.add(n); }

  // ---- facts -------------------------------------------------------------------------------

  static V isNull(V v) { return V.app("isnull", "Z", v); }
  static V same(V a, V b) {
    if (a.key.compareTo(b.key) > 0) { V t = a; a = b; b = t; }
    return V.app("same", "Z", a, b);
  }
  static V equalsTo(V a, V b) {
    if (a.key.compareTo(b.key) > 0) { V t = a; a = b; b = t; }
    return V.app("equals", "Z", a, b);
  }

  Boolean known(V atom) { return facts.get(atom.key); }

  Boolean decide(V c) {
    if (c.is("isnull") && (c.a[0].k == V.K.SYM || c.a[0].k == V.K.APP) && ("I".equals(c.a[0].type) || "J".equals(c.a[0].type))) return false;
    if (c.isInt()) return c.intVal() != 0;
    if (c.isConst() && c.x instanceof Boolean) return (Boolean) c.x;
    Boolean b = facts.get(c.key);
    if (b != null) return b;
    if (c.is("not")) {
      Boolean r = decide(c.a[0]);
      return r == null ? null : !r;
    }
    if (c.is("isnull")) return decideNull(c.a[0]);
    if (c.is("haskey")) return Boolean.FALSE.equals(decideNull(V.app("mapget", null, c.a))) ? true : null;
    if (c.is("same")) {
      V x = c.a[0], y = c.a[1];
      if (x.equals(y)) return true;
      if (x.isNull()) return decideNull(y);
      if (y.isNull()) return decideNull(x);
      if (x.isConst() && y.isConst()) return x.isStr() && y.isStr() ? null : false;
      if (x.k == V.K.OBJ && y.k == V.K.OBJ) return false;
      if (fresh(x) && !fresh(y) && y.k != V.K.LVAR && y.k != V.K.APP && y.k != V.K.FLD && y.k != V.K.RES) return false;
      if (fresh(y) && !fresh(x) && x.k != V.K.LVAR && x.k != V.K.APP && x.k != V.K.FLD && x.k != V.K.RES) return false;
      Boolean nx = decideNull(x), ny = decideNull(y);
      if (nx != null && ny != null && !nx.equals(ny)) return false;
      if (nx != null && nx && ny != null && ny) return true;
      Boolean eq = known(equalsTo(x, y));
      if (eq != null && !eq) return false;
      // a value that is one constant object is no other
      V k = x.k == V.K.OBJ ? x : y.k == V.K.OBJ ? y : null, t = k == x ? y : x;
      if (k != null) for (Map.Entry<String, V> e : atoms.entrySet()) {
        V o = e.getValue();
        if (!o.is("same") || !Boolean.TRUE.equals(facts.get(e.getKey()))) continue;
        V other = o.a[0].equals(t) ? o.a[1] : o.a[1].equals(t) ? o.a[0] : null;
        if (other != null && other.k == V.K.OBJ && !other.equals(k)) return false;
      }
      return null;
    }
    if (c.is("equals")) {
      V x = c.a[0], y = c.a[1];
      if (x.equals(y)) return true;
      Boolean nx = decideNull(x), ny = decideNull(y);
      if (nx != null && ny != null && !nx.equals(ny)) return false;
      if (nx != null && nx && ny != null && ny) return true;
      if (x.isConst() && y.isConst()) return x.x == null ? y.x == null : x.x.equals(y.x);
      Boolean s = known(same(x, y));
      if (s != null && s) return true;
      if (x.isStr() || y.isStr()) {
        Boolean len = decideCmp("==", V.app("length", "I", x.isStr() ? y : x), V.num(((String) (x.isStr() ? x : y).x).length()));
        if (Boolean.FALSE.equals(len)) return false;
        if (Boolean.TRUE.equals(len) && ((String) (x.isStr() ? x : y).x).isEmpty()) return true;
        V t = x.isStr() ? y : x, k = x.isStr() ? x : y;
        for (Map.Entry<String, V> e : atoms.entrySet()) {
          V o = e.getValue();
          if (o.is("equals") && Boolean.TRUE.equals(facts.get(e.getKey()))) {
            V other = o.a[0].equals(t) ? o.a[1] : o.a[1].equals(t) ? o.a[0] : null;
            if (other != null && other.isStr()) return other.x.equals(k.x);
          }
        }
      }
      return null;
    }
    if (c.is("iszero")) return decideCmp("==", c.a[0], V.FALSE);
    if (c.is("lt")) return decideCmp("<", c.a[0], c.a[1]);
    if (c.is("paths")) {
      boolean t = false, f = false;
      for (Way w : ways(c)) {
        if (t && w.val || f && !w.val || !copy().merge(w.end)) continue;
        if (w.val) t = true; else f = true;
      }
      return t == f ? null : (Boolean) t;
    }
    if (c.is("instanceof")) {
      if (Boolean.TRUE.equals(decideNull(c.a[0]))) return false;
      return null;
    }
    return null;
  }

  static boolean fresh(V v) { return v.k == V.K.OBJ && !v.op.startsWith("S"); }

  Boolean decideNull(V v) {
    if (v.isNull()) return true;
    if (v.nonNull || v.k == V.K.OBJ || v.k == V.K.LAM || v.k == V.K.EXC || v.k == V.K.CONST) return false;
    Boolean b = facts.get("isnull(" + v.key + ")");
    if (b != null) return b;
    if (v.is("concat") || v.is("format") || v.is("currentThread")) return false;
    return null;
  }

  /** Adds a fact; false when it contradicts what is known. */
  boolean assume(V c, boolean val) {
    Boolean d = decide(c);
    if (d != null) return d == val;
    if (c.is("not")) return assume(c.a[0], !val);
    if (c.is("iszero")) return assumeCmp("==", c.a[0], V.FALSE, val);
    if (c.is("lt")) return assumeCmp("<", c.a[0], c.a[1], val);
    if (c.is("paths")) {
      Way one = null;
      int n = 0;
      for (Way w : ways(c)) if (w.val == val && copy().merge(w.end)) { one = w; n++; }
      if (n == 0) return false;
      if (n == 1) return merge(one.end);
    }
    if (c.is("haskey") && !val && !assume(isNull(V.app("mapget", null, c.a)), true)) return false;
    facts.put(c.key, val);
    atoms.put(c.key, c);
    if (c.is("same") && val) {
      V x = c.a[0], y = c.a[1];
      if (!alike(x, y) || !alike(y, x)) return false;
      Boolean nx = decideNull(x), ny = decideNull(y);
      if (nx != null && ny == null && !y.isNull()) return assume(isNull(y), nx);
      if (ny != null && nx == null && !x.isNull()) return assume(isNull(x), ny);
    }
    if (c.is("equals") && (c.a[0].isStr() || c.a[1].isStr())) {
      V k = c.a[0].isStr() ? c.a[0] : c.a[1], t = c.a[0].isStr() ? c.a[1] : c.a[0];
      int n = ((String) k.x).length();
      if ((val || n == 0 && Boolean.FALSE.equals(decideNull(t))) && !assumeCmp("==", V.app("length", "I", t), V.num(n), val)) return false;
    }
    if (c.is("equals") && val) {
      V x = c.a[0], y = c.a[1];
      Boolean nx = decideNull(x), ny = decideNull(y);
      if (nx != null && ny == null) return assume(isNull(y), nx);
      if (ny != null && nx == null) return assume(isNull(x), ny);
    }
    if (c.is("instanceof") && val) return decideNull(c.a[0]) == null ? assume(isNull(c.a[0]), false) : !decideNull(c.a[0]);
    return true;
  }

  /** A value that is a known constant object has the final fields of that object. */
  private boolean alike(V x, V y) {
    if (x.k == V.K.OBJ || y.k != V.K.OBJ || !y.op.startsWith("S")) return true;
    for (Cell c : new ArrayList<>(heap.values())) {
      if (!c.base.equals(y) || c.val == null || !c.val.isInt() || !FINALS.contains(y.type + "." + c.f)) continue;
      Boolean said = facts.get(V.fld(x, c.f, c.val.type, 0).key);
      if (said != null && said != (c.val.intVal() != 0)) return false;
      if (said == null && !assumeCmp("==", V.fld(x, c.f, c.val.type, 0), c.val, true)) return false;
    }
    return true;
  }
  /** The final fields of the program's classes. */
  static final Set<String> FINALS = java.util.concurrent.ConcurrentHashMap.newKeySet();

  /** One way an observer can return: the facts of the path, and its result. */
  static final class Way {
    final St end; final boolean val;
    Way(St e, boolean v) { end = e; val = v; }
  }
  @SuppressWarnings("unchecked")
  private static List<Way> ways(V c) { return (List<Way>) c.x; }
  /** Adds what another path knows; false when the two contradict each other. */
  boolean merge(St o) {
    for (Map.Entry<String, V> e : o.atoms.entrySet()) {
      Boolean b = o.facts.get(e.getKey());
      if (b != null && !assume(e.getValue(), b)) return false;
    }
    for (Map.Entry<String, long[]> e : o.ivl.entrySet()) {
      long[] m = ivl.get(e.getKey()), n = e.getValue().clone();
      if (m != null) { n[0] = Math.max(n[0], m[0]); n[1] = Math.min(n[1], m[1]); }
      if (n[0] > n[1]) return false;
      ivl.put(e.getKey(), n);
    }
    for (Map.Entry<String, Boolean> e : o.facts.entrySet()) if (e.getKey().startsWith("ne ")) facts.put(e.getKey(), e.getValue());
    for (Map.Entry<String, Boolean> e : facts.entrySet()) {
      if (!e.getKey().startsWith("ne ") || !e.getValue()) continue;
      int i = e.getKey().lastIndexOf('+');
      long[] v = ivl.get(e.getKey().substring(3, i));
      if (v != null && v[0] == v[1] && v[0] == -Long.parseLong(e.getKey().substring(i + 1))) return false;
    }
    return true;
  }

  // ---- linear integer facts ----------------------------------------------------------------

  static final long INF = Long.MAX_VALUE / 4;

  static final class Lin {
    final TreeMap<String, Long> co = new TreeMap<>();
    final Map<String, V> terms = new HashMap<>();
    long c;
    void add(V v, long m) {
      if (v.isInt()) { c += m * v.intVal(); return; }
      if (v.is("+")) { add(v.a[0], m); add(v.a[1], m); return; }
      if (v.is("-")) { add(v.a[0], m); add(v.a[1], -m); return; }
      if (v.is("neg")) { add(v.a[0], -m); return; }
      if (v.is("*") && v.a[0].isInt()) { add(v.a[1], m * v.a[0].intVal()); return; }
      if (v.is("*") && v.a[1].isInt()) { add(v.a[0], m * v.a[1].intVal()); return; }
      terms.put(v.key, v);
      co.merge(v.key, m, Long::sum);
      if (co.get(v.key) == 0) co.remove(v.key);
    }
    String key() { return co.toString(); }
    boolean negative() { return !co.isEmpty() && co.firstEntry().getValue() < 0; }
    Lin neg() {
      Lin l = new Lin();
      co.forEach((k, v) -> l.co.put(k, -v));
      l.terms.putAll(terms);
      l.c = -c;
      return l;
    }
  }
  static Lin lin(V a, V b) { Lin l = new Lin(); l.add(a, 1); l.add(b, -1); return l; }

  private long[] baseIvl(Lin l) {
    long[] r = ivl.get(l.key());
    if (r != null) return r.clone();
    // interval of the sum of the single-term intervals
    long lo = 0, hi = 0;
    for (Map.Entry<String, Long> e : l.co.entrySet()) {
      V t = l.terms.get(e.getKey());
      long[] ti = ivl.get("{" + e.getKey() + "=1}");
      long tl = -INF, th = INF;
      if (ti != null) { tl = ti[0]; th = ti[1]; }
      else if (t != null && (t.op != null && (t.op.startsWith("size") || t.op.equals("length")))) { tl = 0; th = Integer.MAX_VALUE - 1; }
      long m = e.getValue();
      long a = m > 0 ? tl : th, b = m > 0 ? th : tl;
      lo = a <= -INF || a >= INF || lo <= -INF ? -INF : lo + a * m;
      hi = b <= -INF || b >= INF || hi >= INF ? INF : hi + b * m;
    }
    return new long[]{lo, hi};
  }

  /** Interval of a - b. */
  long[] range(V a, V b) {
    Lin l = lin(a, b);
    if (l.co.isEmpty()) return new long[]{l.c, l.c};
    boolean neg = l.negative();
    Lin p = neg ? l.neg() : l;
    long[] r = baseIvl(p);
    long lo = r[0] <= -INF ? -INF : r[0] + p.c, hi = r[1] >= INF ? INF : r[1] + p.c;
    return neg ? new long[]{hi >= INF ? -INF : -hi, lo <= -INF ? INF : -lo} : new long[]{lo, hi};
  }

  /** op on a - b versus 0: one of < <= > >= == != */
  Boolean decideCmp(String op, V a, V b) {
    long[] r = range(a, b);
    switch (op) {
      case "<": return r[1] < 0 ? Boolean.TRUE : r[0] >= 0 ? Boolean.FALSE : null;
      case "<=": return r[1] <= 0 ? Boolean.TRUE : r[0] > 0 ? Boolean.FALSE : null;
      case ">": return r[0] > 0 ? Boolean.TRUE : r[1] <= 0 ? Boolean.FALSE : null;
      case ">=": return r[0] >= 0 ? Boolean.TRUE : r[1] < 0 ? Boolean.FALSE : null;
      case "==": case "!=": {
        Boolean eq = r[0] == 0 && r[1] == 0 ? Boolean.TRUE : r[0] > 0 || r[1] < 0 ? Boolean.FALSE : null;
        if (eq == null) {
          Lin l = lin(a, b);
          if (l.negative()) l = l.neg();
          Boolean ne = facts.get("ne " + l.key() + "+" + l.c);
          if (ne != null) eq = !ne;
        }
        return eq == null ? null : op.equals("==") == eq;
      }
      default: return null;
    }
  }

  boolean assumeCmp(String op, V a, V b, boolean val) {
    if (!val) op = negOp(op);
    Boolean d = decideCmp(op, a, b);
    if (d != null) return d;
    Lin l = lin(a, b);
    boolean neg = l.negative();
    if (neg) {
      l = l.neg();
      op = flip(op);
    }
    long[] r = baseIvl(l);
    long k = -l.c; // sum op k
    switch (op) {
      case "<": r[1] = Math.min(r[1], k - 1); break;
      case "<=": r[1] = Math.min(r[1], k); break;
      case ">": r[0] = Math.max(r[0], k + 1); break;
      case ">=": r[0] = Math.max(r[0], k); break;
      case "==": r[0] = Math.max(r[0], k); r[1] = Math.min(r[1], k); break;
      default:
        if (r[0] == k) r[0]++;
        else if (r[1] == k) r[1]--;
        else facts.put("ne " + l.key() + "+" + l.c, true);
    }
    if (r[0] > r[1]) return false;
    ivl.put(l.key(), r);
    return true;
  }
  static String negOp(String op) {
    switch (op) {
      case "<": return ">=";
      case "<=": return ">";
      case ">": return "<=";
      case ">=": return "<";
      case "==": return "!=";
      default: return "==";
    }
  }
  static String flip(String op) {
    switch (op) {
      case "<": return ">";
      case "<=": return ">=";
      case ">": return "<";
      case ">=": return "<=";
      default: return op;
    }
  }

  String factsText() {
    StringBuilder sb = new StringBuilder();
    for (String k : new TreeSet<>(facts.keySet())) sb.append(facts.get(k) ? "" : "!").append(k).append("; ");
    for (String k : new TreeSet<>(ivl.keySet())) {
      long[] r = ivl.get(k);
      sb.append(k).append(" in [").append(r[0] <= -INF ? "-inf" : r[0] + "").append(",").append(r[1] >= INF ? "inf" : r[1] + "").append("]; ");
    }
    return sb.toString();
  }
}
