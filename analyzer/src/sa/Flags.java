package sa;

import java.util.*;

/** What variables carried out of loops (flags, counters, found objects, collected elements) say about the iterations that happened. */
final class Flags {
  enum Z { ZERO, POS, UNKNOWN }

  static Z sign(St st, V v) {
    if (v == null) return Z.UNKNOWN;
    if (v.isNull()) return Z.ZERO;
    if (v.isInt()) return v.intVal() == 0 ? Z.ZERO : v.intVal() > 0 ? Z.POS : Z.UNKNOWN;
    if ("Z".equals(v.type)) {
      Boolean b = st.decide(v);
      if (b != null) return b ? Z.POS : Z.ZERO;
    }
    if ("I".equals(v.type) || "J".equals(v.type) || "Z".equals(v.type)) {
      if (Boolean.TRUE.equals(st.decideCmp("==", v, V.FALSE)) || Boolean.TRUE.equals(st.decideCmp("<=", v, V.FALSE))) return Z.ZERO;
      if (Boolean.TRUE.equals(st.decideCmp("!=", v, V.FALSE)) || Boolean.TRUE.equals(st.decideCmp(">", v, V.FALSE))) return Z.POS;
    }
    if ("I".equals(v.type) || "J".equals(v.type)) return Z.UNKNOWN;
    Boolean n = st.decideNull(v);
    return n == null ? Z.UNKNOWN : n ? Z.ZERO : Z.POS;
  }
  private static boolean lvar(V v, Loop l, String n) { return v != null && v.k == V.K.LVAR && v.key.equals(V.lvar(l.id, n, null).key); }

  /** How an iteration leaves a variable: unchanged, positive, or unknown. */
  private static Z change(Loop l, String n, Loop.Iter it) {
    V u = it.upd.get(n), lv = V.lvar(l.id, n, type(l, n));
    if (!it.upd.containsKey(n) || lvar(u, l, n)) return Z.ZERO;
    if (u == null) return Z.UNKNOWN;
    Z now = sign(it.end, u);
    if (now == Z.POS) return sign(it.end, lv) == Z.POS && !grows(u, l, n) ? Z.ZERO : Z.POS;
    if (now == Z.ZERO && sign(it.end, lv) == Z.ZERO) return Z.ZERO;
    if (grows(u, l, n)) return Z.POS;
    Loop in = nested(it, u);
    if (in != null && sticky(in, u.op)) {
      V i0 = in.init.get(u.op);
      if (lvar(i0, l, n)) return Z.ZERO; // decided by the inner loop
    }
    return Z.UNKNOWN;
  }
  private static boolean grows(V u, Loop l, String n) {
    return u.is("+") && (lvar(u.a[0], l, n) && u.a[1].isInt() && u.a[1].intVal() > 0 || lvar(u.a[1], l, n) && u.a[0].isInt() && u.a[0].intVal() > 0);
  }
  private static String type(Loop l, String n) {
    V i = l.init.get(n);
    return i == null || i.isNull() ? null : i.type;
  }
  private static Loop nested(Loop.Iter it, V u) {
    if (u == null || u.k != V.K.LVAR) return null;
    for (Eff g : it.effs) if (g.k == Eff.K.LOOP && g.loop.id == (Integer) u.x) return g.loop;
    return null;
  }
  /** Once positive, always positive. */
  static boolean sticky(Loop l, String n) {
    for (Loop.Iter it : l.iters) if (change(l, n, it) == Z.UNKNOWN) return false;
    return true;
  }
  private static boolean zero(St st, List<Loop> ls, List<Loop.Iter> its, int k, String n) {
    Loop l = ls.get(k);
    if (!sticky(l, n)) return false;
    if (k == 0) {
      for (V t : same(st, l, n)) if (sign(st, t) == Z.ZERO) return true;
      return false;
    }
    for (Map.Entry<String, V> u : its.get(k - 1).upd.entrySet())
      if (lvar(u.getValue(), l, n) && zero(st, ls, its, k - 1, u.getKey())) return true;
    return false;
  }
  private static List<V> same(St st, Loop l, String n) {
    V i = l.init.get(n);
    List<V> r = new ArrayList<>(List.of(V.lvar(l.id, n, i == null || i.isNull() ? null : i.type)));
    if (i != null && "I".equals(i.type)) r.add(V.lvar(l.id, n, "Z"));
    return r;
  }

  /** Is it certain that this iteration of (possibly nested) loops never happened on a path that ends in this state? */
  static boolean never(Lib lib, St st, List<Eff> trace, List<Loop> ls, List<Loop.Iter> its) {
    int k = ls.size() - 1;
    Loop.Iter it = its.get(k);
    for (String n : it.upd.keySet())
      if ((change(ls.get(k), n, it) == Z.POS || sign(it.end, it.upd.get(n)) == Z.POS) && zero(st, ls, its, k, n)) return true;
    for (Eff g : it.effs) {
      if (g.k != Eff.K.MUT || g.recv == null || !(g.op.equals("list.add") || g.op.equals("set.add") || g.op.equals("map.put") || g.op.equals("queue.offer"))) continue;
      boolean shrinks = false;
      for (Eff h : World.all(trace)) if (h.k == Eff.K.MUT && g.recv.equals(h.recv) && !h.op.equals(g.op)) shrinks = true;
      if (!shrinks && Boolean.TRUE.equals(st.decide(lib.isEmpty(st, g.recv)))) return true;
    }
    return false;
  }
  static boolean never(Lib lib, St st, Loop l, Loop.Iter it) { return never(lib, st, st.trace, List.of(l), List.of(it)); }

  /** Iterations of which at least one is certain to have happened; null when nothing is known. */
  static List<Loop.Iter> some(St st, Loop l) {
    for (String n : l.init.keySet()) {
      V i = l.init.get(n);
      if (i == null || sign(st, i) != Z.ZERO) continue;
      boolean pos = false;
      for (V t : same(st, l, n)) if (sign(st, t) == Z.POS) pos = true;
      if (!pos) continue;
      List<Loop.Iter> r = new ArrayList<>();
      for (Loop.Iter it : l.iters) if (it.upd.containsKey(n) && !lvar(it.upd.get(n), l, n) && sign(it.end, it.upd.get(n)) != Z.ZERO) {
        if (sign(it.end, V.lvar(l.id, n, type(l, n))) == Z.POS && sign(it.end, it.upd.get(n)) == Z.POS && !grows(it.upd.get(n), l, n)) continue;
        r.add(it);
      }
      return r;
    }
    return null;
  }
}
