package sa;

import java.util.*;
import java.util.function.*;

/** A loop of a path over the elements of a collection: what is traversed, in which direction, and whether to the end. */
final class Each {
  Loop loop;
  V base;                     // the traversed collection; null when not recognised
  String dir;
  boolean exhausted;          // on this path the loop ends because nothing is left
  final List<V> elems = new ArrayList<>();        // per iteration
  final List<List<Eff>> calls = new ArrayList<>(); // matching effects per iteration
  final List<Loop.Iter> iters = new ArrayList<>();
  List<Eff> after = new ArrayList<>();            // what the path does after the recorded iterations
  V lastElem;                                     // element of an iteration that left the loop early

  /** The outermost loops of a path whose iterations have matching effects. */
  static List<Each> of(St st, Predicate<Eff> q) { return of(null, st, q); }
  static List<Each> of(Lib lib, St st, Predicate<Eff> q) {
    List<Each> r = new ArrayList<>();
    for (int i = 0; i < st.trace.size(); i++) {
      Eff g = st.trace.get(i);
      if (g.k != Eff.K.LOOP) continue;
      boolean any = false;
      for (Loop.Iter it : g.loop.iters) if (!World.effs(it.effs, q).isEmpty()) any = true;
      if (!any) continue;
      Each e = new Each();
      e.loop = g.loop;
      e.empty = c -> lib == null ? V.FALSE : lib.isEmpty(st, c);
      e.after = st.trace.subList(i + 1, st.trace.size());
      e.analyse(st, q);
      r.add(e);
    }
    return r;
  }
  private void analyse(St st, Predicate<Eff> q) {
    V ixElem = null;
    List<V> bases = new ArrayList<>();
    List<String> dirs = new ArrayList<>();
    for (Loop.Iter it : loop.iters) {
      V el = null, b = null;
      String d = null;
      int nexts = 0;
      for (Eff g : it.effs) if (g.k == Eff.K.ITER && g.is("iter.next")) { nexts++; el = g.res; b = g.recv; d = g.arg(0) == null ? "fwd" : String.valueOf(g.arg(0).x); }
      List<Eff> cs = World.effs(it.effs, q);
      if (nexts == 0 && polls(it.effs, null).size() == 1) {
        // taken one by one from a copy
        Eff g = polls(it.effs, null).get(0);
        V from = st.get(g.recv, "$copied");
        boolean whole = from != null && !Boolean.TRUE.equals(it.end.decideNull(g.res));
        for (Eff x : st.trace) if (x.k == Eff.K.MUT && g.recv.equals(x.recv) && !x.op.startsWith("queue.poll")) whole = false;
        for (Eff x : st.trace) if (x == g || x.k == Eff.K.LOOP && x.loop == loop) break; else if (x.k == Eff.K.MUT && g.recv.equals(x.recv)) whole = false;
        for (Eff x : World.all(it.effs)) if (x.k == Eff.K.MUT && g.recv.equals(x.recv) && x != g) whole = false;
        if (whole) {
          el = g.res;
          b = from.a[0];
          d = from.op.equals("par") ? "par" : from.op.equals("fwd") == g.op.equals("queue.poll") ? "fwd" : "rev";
          taken = g.recv;
        }
      } else if (nexts == 0) {
        // an index loop
        Set<V> cand = new LinkedHashSet<>();
        for (Eff c : cs) {
          indexed(c.recv, cand);
          for (V x : c.args) indexed(x, cand);
        }
        for (V x : cand) {
          String way = index(it, x, st);
          if (way == null) continue;
          el = ixElem = x;
          b = x.a[0];
          d = way;
        }
      }
      if (nexts > 1) b = null;
      elems.add(el);
      bases.add(b);
      dirs.add(d);
      calls.add(cs);
      iters.add(it);
    }
    for (int i = 0; i < iters.size(); i++) {
      // an iteration of an index loop that does nothing with its element
      if (elems.get(i) == null && ixElem != null && calls.get(i).isEmpty() && World.effs(iters.get(i).effs, g -> g.is("iter.next")).isEmpty()) {
        String way = index(iters.get(i), ixElem, st);
        if (way != null) { elems.set(i, ixElem); bases.set(i, ixElem.a[0]); dirs.set(i, way); }
      }
      V b = elems.get(i) == null ? null : bases.get(i);
      if (b == null) { base = null; break; }
      if (i == 0) { base = b; dir = dirs.get(i); }
      else if (base == null || !base.equals(b) || !dirs.get(i).equals(dir)) { base = null; break; }
    }
    if (taken != null) {
      List<Eff> rest = polls(after, taken);
      if (rest.size() > 1) base = null;
      for (Eff g : rest) if (Boolean.TRUE.equals(st.decideNull(g.res))) exhausted = true; else lastElem = g.res;
      if (rest.isEmpty() && empty != null && Boolean.TRUE.equals(st.decide(empty.apply(taken)))) exhausted = true;
    }
    for (Eff g : after) {
      if (g.k != Eff.K.ITER || base == null || !base.equals(g.recv)) continue;
      if (g.is("iter.done")) exhausted = true;
      else if (g.is("iter.next")) lastElem = g.res;
    }
  }
  private V taken;
  private Function<V, V> empty;
  private static List<Eff> polls(List<Eff> l, V from) {
    return World.effs(l, g -> g.k == Eff.K.MUT && g.op.startsWith("queue.poll") && (from == null || from.equals(g.recv)));
  }
  private static void indexed(V v, Set<V> out) {
    if (v == null) return;
    if (v.k == V.K.APP && v.op.startsWith("get") && v.a.length == 2) out.add(v);
    if (v.k == V.K.APP) for (V a : v.a) indexed(a, out);
  }
  /** Is this the element of an index loop that steps by one? Its direction, or null. */
  private String index(Loop.Iter it, V x, St st) {
    V ix = x.a[1];
    for (Map.Entry<String, V> u : it.upd.entrySet()) {
      V lv = V.lvar(loop.id, u.getKey(), "I");
      V in = loop.init.get(u.getKey());
      if (u.getValue() == null || in == null || !ix.mentions(lv)) continue;
      long[] step = it.end.range(subst(ix, lv, u.getValue()), ix);
      if (step[0] != step[1]) continue;
      V size = V.app(x.op.replace("get", "size"), "I", x.a[0]);
      V first = subst(ix, lv, in);
      long[] atZero = it.begin.range(first, V.FALSE), atEnd = it.begin.range(Engine.add(first, V.num(1)), size);
      if (step[0] == 1 && atZero[0] == 0 && atZero[1] == 0) {
        if (Boolean.TRUE.equals(st.decideCmp(">=", ix, size))) exhausted = true;
        return "fwd";
      }
      if (step[0] == -1 && atEnd[0] == 0 && atEnd[1] == 0) {
        if (Boolean.TRUE.equals(st.decideCmp("<", ix, V.FALSE))) exhausted = true;
        return "rev";
      }
    }
    return null;
  }
  static V subst(V v, V x, V by) {
    if (v.equals(x)) return by;
    if (v.k != V.K.APP) return v;
    V[] a = new V[v.a.length];
    boolean ch = false;
    for (int i = 0; i < a.length; i++) { a[i] = subst(v.a[i], x, by); ch |= a[i] != v.a[i]; }
    return ch ? v.is("+") ? Engine.add(a[0], a[1]) : V.app(v.op, v.type, a) : v;
  }
}
