package sa;

import java.util.*;
import org.objectweb.asm.*;

/** Models of the library operations the program uses, and conservative defaults for the rest. */
final class Lib {
  final Engine en;
  Lib(Engine e) { en = e; }

  static final class Src {
    List<V> known;
    V base;
    String dir = "fwd";
  }

  private static List<Engine.Out> ret(St st, V v) { return List.of(Engine.Out.ret(st, v)); }

  // ---- collections -------------------------------------------------------------------------

  /** The collection a value is a view or copy of, with the direction of traversal. */
  Src source(St st, V c) {
    Src s = new Src();
    boolean rev = false, par = false, dedup = false;
    for (int i = 0; i < 10; i++) {
      if (c.is("aslist")) { c = c.a[0]; continue; }
      if (c.is("reversed")) { c = c.a[0]; rev = !rev; continue; }
      if (c.is("stream")) { c = c.a[0]; continue; }
      if (c.is("collected") && c.a[0].is("stream")) { c = c.a[0].a[0]; continue; }
      if (c.is("parallel")) { c = c.a[0]; par = true; continue; }
      V l = st.get(c, "$list");
      if (l != null) {
        s.known = new ArrayList<>(Arrays.asList(l.a));
        if (rev) Collections.reverse(s.known);
        s.base = c;
        s.dir = par ? "par" : dedup ? "dedup" : rev ? "rev" : "fwd";
        return s;
      }
      V cp = st.get(c, "$copyOf");
      if (cp != null) {
        V d = st.get(c, "$dir");
        if (d != null && "rev".equals(d.x)) rev = !rev;
        if (d != null && "par".equals(d.x)) par = true;
        if (d != null && "dedup".equals(d.x)) dedup = true;
        c = cp;
        continue;
      }
      break;
    }
    if (c.is("values") || c.is("keySet") || c.is("entrySet")) {
      V m = c.a[0].is("emptyMap") ? V.app("$map", null) : st.get(c.a[0], "$map");
      if (m != null) {
        s.known = new ArrayList<>();
        for (int i = 0; i < m.a.length; i += 2) {
          s.known.add(c.is("values") ? m.a[i + 1] : c.is("keySet") ? m.a[i] : V.app("entry", "java/util/Map$Entry", m.a[i], m.a[i + 1]));
        }
      }
    }
    if (c.is("range") && c.a[0].isInt() && c.a[1].isInt() && c.a[1].intVal() - c.a[0].intVal() <= 64) {
      s.known = new ArrayList<>();
      for (long i = c.a[0].intVal(); i < c.a[1].intVal(); i++) s.known.add(V.num((int) i));
    }
    s.base = c;
    s.dir = par ? "par" : dedup ? "dedup" : rev ? "rev" : "fwd";
    return s;
  }

  /** An element of a key set is a key of the map, an element of an entry set belongs to it. */
  void seenIn(St st, V coll, V elem) {
    if (coll.is("keySet")) st.put(elem, "$keyOf", mapBase(st, coll.a[0]));
    if (coll.is("entrySet")) st.put(entryKey(elem), "$keyOf", mapBase(st, coll.a[0]));
    if ((coll.is("values") || coll.is("entrySet")) && en.nonNullValues.contains(mapBase(st, coll.a[0])))
      st.assume(St.isNull(coll.is("values") ? elem : entryVal(elem)), false);
  }
  /** Collections that reject null elements. */
  boolean noNulls(V c) {
    if (c.is("keySet") || c.is("values")) return c.a[0].type != null && V.shortName(c.a[0].type).startsWith("Concurrent");
    return c.type != null && QUEUES.contains(V.shortName(c.type)) && !c.type.endsWith("LinkedList") || c.is("entrySet");
  }

  String ver(St st, V c) {
    if (en.conc && isShared(c)) return "#" + st.id();
    V v = st.get(c, "$ver");
    return v == null ? "" : "#" + v.key;
  }
  boolean isShared(V c) { return c.k == V.K.SYM || c.k == V.K.OBJ && c.op.startsWith("S") || c.k == V.K.FLD; }
  void bump(St st, V c) {
    st.put(c, "$ver", V.num(st.id()));
    st.drop(c, "$copyOf");
    st.drop(c, "$dir");
  }

  V size(St st, V c) {
    Src s = source(st, c);
    if (s.known != null) return V.num(s.known.size());
    V b = s.base;
    if (b.is("values") || b.is("keySet") || b.is("entrySet")) b = b.a[0];
    if (b.is("emptyMap")) return V.num(0);
    V m = st.get(b, "$map");
    if (m != null) return V.num(m.a.length / 2);
    return V.app("size" + ver(st, b), "I", b);
  }
  V isEmpty(St st, V c) {
    V s = size(st, c);
    return s.isInt() ? V.bool(s.intVal() == 0) : V.app("iszero", "Z", s);
  }
  V elemAt(St st, V c, V i) {
    Src s = source(st, c);
    if (s.known != null && i.isInt() && i.intVal() >= 0 && i.intVal() < s.known.size()) return s.known.get((int) i.intVal());
    if ("rev".equals(s.dir)) i = V.app("-", "I", Engine.add(V.app("size" + ver(st, s.base), "I", s.base), V.num(-1)), i);
    String t = c.type != null && c.type.startsWith("[L") ? c.type.substring(2, c.type.length() - 1) : null;
    return V.app("get" + ver(st, s.base), t, s.base, i);
  }
  void setList(St st, V c, List<V> l) { st.put(c, "$list", V.app("listdata", null, l.toArray(V.NONE))); }
  V newKnown(St st, String type, List<V> l, boolean immutable) {
    V o = V.obj(en.idPrefix + st.id(), type, en.site());
    setList(st, o, l);
    if (immutable) st.put(o, "$tag", V.str("immutable"));
    return o;
  }
  /** What equal strings are to each other, and other strings may be. */
  static final Set<String> WEAKER = Set.of("equalsIgnoreCase", "contentEquals", "startsWith", "endsWith", "contains");
  static boolean setLike(V c) { return c.is("keySet") || c.is("entrySet") || c.type != null && c.type.endsWith("Set"); }
  V copyOf(St st, V o, V src) {
    Src s = source(st, src);
    if (s.known != null) setList(st, o, s.known);
    else {
      st.put(o, "$copyOf", s.base);
      if (!setLike(s.base) && o.type != null) switch (V.shortName(o.type)) {
        case "HashSet": case "TreeSet": case "ConcurrentSkipListSet": s.dir = "par"; break;
        case "LinkedHashSet": case "CopyOnWriteArraySet": s.dir = "dedup"; break;
        default:
      }
      st.put(o, "$copied", V.app(s.dir, null, s.base));
      if (!s.dir.equals("fwd")) st.put(o, "$dir", V.str(s.dir));
      else st.drop(o, "$dir");
      st.drop(o, "$list");
    }
    return o;
  }
  /** Elements of a varargs/array value when they are known. */
  List<V> spread(St st, V arr) {
    V l = st.get(arr, "$list");
    return l == null ? null : Arrays.asList(l.a);
  }

  V sameAtom(St st, V a, V b) {
    if (a.is("getClass") && b.is("getClass")) {
      V x = a.a[0], y = b.a[0];
      if (x.equals(y)) return V.TRUE;
      if (x.key.compareTo(y.key) > 0) { V t = x; x = y; y = t; }
      return V.app("sameclass", "Z", x, y);
    }
    if (b.is("getClass")) { V t = a; a = b; b = t; }
    if (a.is("getClass") && "class".equals(b.op) && b.k == V.K.CONST) {
      if (en.prog.isFinal((String) b.x)) return instanceOf(st, a.a[0], (String) b.x);
      return V.app("exactclass", "Z", a.a[0], b);
    }
    if (a.isConst() && b.isConst() && "class".equals(a.op) && "class".equals(b.op)) return V.bool(a.x.equals(b.x));
    if (a.isInt() && b.isInt()) return V.bool(a.intVal() == b.intVal());
    return St.same(a, b);
  }

  private static boolean isClass(V v) { return v.is("getClass") || v.isConst() && "class".equals(v.op); }

  V instanceOf(St st, V v, String t) {
    if (v.isNull()) return V.FALSE;
    if (v.k == V.K.OBJ || v.k == V.K.LAM) {
      Boolean b = en.prog.subtype(v.type, t);
      // something supplied, known only by an interface it implements
      if (Boolean.FALSE.equals(b) && v.k == V.K.OBJ && en.prog.isInterfaceAny(v.type) && en.prog.compatible(v.type, t)) b = null;
      return b == null ? V.app("instanceof", "Z", v, V.cls(t)) : V.bool(b);
    }
    if (v.type != null && Boolean.TRUE.equals(en.prog.subtype(v.type, t))) {
      Boolean n = st.decideNull(v);
      return n != null ? V.bool(!n) : en.not(St.isNull(v));
    }
    if (v.type != null && v.k == V.K.EXC && !en.prog.compatible(v.type, t)) return V.FALSE;
    if (v.type != null && !en.prog.compatible(v.type, t)) return V.FALSE;
    return V.app("instanceof", "Z", v, V.cls(t));
  }

  List<Engine.Out> objectMethod(String name, V recv, V[] args, St st) {
    switch (name) {
      case "equals": {
        V o = args[1];
        boolean e1 = recv.k == V.K.OBJ && en.prog.inApp(recv.type), e2 = o.k == V.K.OBJ && en.prog.inApp(o.type);
        if (recv.equals(o)) return ret(st, V.TRUE);
        if (e1 && e2) {
          if (!recv.type.equals(o.type)) return ret(st, V.FALSE);
          Prog.M m = en.prog.resolve(recv.type, "equals", "(Ljava/lang/Object;)Z");
          if (m == null) return ret(st, V.FALSE);
          boolean sv = en.inlineEquals;
          en.inlineEquals = true;
          try {
            return en.inline(m, args, st);
          } finally { en.inlineEquals = sv; }
        }
        if (Boolean.TRUE.equals(st.decideNull(o))) return ret(st, V.FALSE);
        if (isClass(recv) && isClass(o)) return ret(st, sameAtom(st, recv, o));
        V t = St.equalsTo(recv, o);
        Boolean d = st.decide(t);
        return ret(st, d == null ? t : V.bool(d));
      }
      case "hashCode": return ret(st, V.app("hashCode", "I", recv));
      case "toString": {
        if (recv.isStr() || "java/lang/String".equals(recv.type)) return ret(st, recv);
        V s = st.get(recv, "$s");
        if (s != null) return ret(st, s);
        V r = V.app("toString", "java/lang/String", recv);
        r.nonNull = true;
        return ret(st, r);
      }
      default: {
        if (recv.k == V.K.OBJ || recv.type != null && en.prog.isFinal(recv.type)) return ret(st, V.cls(recv.type));
        V r = V.app("getClass", "java/lang/Class", recv);
        r.nonNull = true;
        return ret(st, r);
      }
    }
  }

  // ---- maps --------------------------------------------------------------------------------

  V mapBase(St st, V m) {
    for (int i = 0; i < 5; i++) {
      V cp = st.get(m, "$copyOf");
      if (cp == null || st.get(m, "$map") != null) return m;
      m = cp;
    }
    return m;
  }
  static final V ABSENT = V.app("absent", null);

  /** Possible values of m[k] with the states they hold in; ABSENT when there is no such key. */
  List<Engine.Out> lookup(St st, V m0, V k) {
    V m = mapBase(st, m0);
    List<Engine.Out> r = new ArrayList<>();
    V known = st.get(m, "$map");
    if (known != null) {
      St rest = st;
      for (int i = known.a.length - 2; i >= 0 && rest != null; i -= 2) {
        if (known.a[i].equals(k)) { r.add(Engine.Out.ret(rest, known.a[i + 1])); rest = null; break; }
        V c = eqAtom(rest, known.a[i], k);
        St[] s = en.split(rest, c);
        if (s[1] != null) r.add(Engine.Out.ret(s[1], known.a[i + 1]));
        rest = s[0];
      }
      if (rest != null) r.add(Engine.Out.ret(rest, ABSENT));
      return r;
    }
    V ov = st.get(m, "$ovl");
    if (ov != null) {
      for (int i = ov.a.length - 2; i >= 0; i -= 2) {
        if (ov.a[i].equals(k) || Boolean.TRUE.equals(st.decide(eqAtom(st, ov.a[i], k)))) {
          r.add(Engine.Out.ret(st, ov.a[i + 1]));
          return r;
        }
      }
    }
    if (m.is("emptyMap")) { r.add(Engine.Out.ret(st, ABSENT)); return r; }
    V val = V.app("mapget" + ver(st, m), null, m, k);
    // the value of a key the map was just seen to have
    V of = st.get(k, "$keyOf");
    if (of != null && of.equals(m) && (!en.nullValues || en.nonNullValues.contains(m))) st.assume(St.isNull(val), false);
    else if (of != null && of.equals(m)) st.assume(V.app("haskey", "Z", val.a), true);
    r.add(Engine.Out.ret(st, val));
    return r;
  }
  V eqAtom(St st, V a, V b) {
    if (a.equals(b)) return V.TRUE;
    if (a.k == V.K.OBJ && b.k == V.K.OBJ && en.prog.inApp(a.type) && en.prog.inApp(b.type)) {
      if (!a.type.equals(b.type)) return V.FALSE;
      List<Engine.Out> o = objectMethod("equals", a, new V[]{a, b}, st.copy());
      Boolean d = null;
      boolean one = true;
      for (Engine.Out x : o) {
        Boolean v = x.val == null ? null : x.st.decide(x.val);
        if (v == null || d != null && !d.equals(v)) one = false;
        d = v;
      }
      if (one && d != null) return V.bool(d);
    }
    return St.equalsTo(a, b);
  }
  void mapStore(St st, V m0, V k, V v) {
    V m = mapBase(st, m0);
    V known = st.get(m, "$map");
    String cell = known != null ? "$map" : "$ovl";
    V cur = known != null ? known : st.get(m, "$ovl");
    List<V> l = new ArrayList<>(cur == null ? List.of() : Arrays.asList(cur.a));
    for (int i = 0; i < l.size(); i += 2) {
      if (l.get(i).equals(k) || Boolean.TRUE.equals(st.decide(eqAtom(st, l.get(i), k)))) { l.remove(i); l.remove(i); i -= 2; }
    }
    l.add(k);
    l.add(v);
    st.put(m, cell, V.app(cell, null, l.toArray(V.NONE)));
    bumpSize(st, m);
  }
  void mapDelete(St st, V m0, V k) {
    V m = mapBase(st, m0);
    V known = st.get(m, "$map");
    if (known != null) {
      List<V> l = new ArrayList<>(Arrays.asList(known.a));
      for (int i = 0; i < l.size(); i += 2) {
        if (l.get(i).equals(k) || Boolean.TRUE.equals(st.decide(eqAtom(st, l.get(i), k)))) { l.remove(i); l.remove(i); i -= 2; }
      }
      st.put(m, "$map", V.app("$map", null, l.toArray(V.NONE)));
    } else mapStore(st, m, k, ABSENT);
    bumpSize(st, m);
  }
  void bumpSize(St st, V m) { }

  V presentAtom(V val) {
    // a key is present when its value is not null, or, for maps that may hold null, by a separate atom
    if (val.equals(ABSENT)) return V.FALSE;
    if (val.isNull()) return V.TRUE;
    if (en.nullValues && val.is("mapget")) return V.app("haskey", "Z", val.a);
    if (!en.nullValues || !val.isNull()) {
      return en.not(St.isNull(val));
    }
    return V.TRUE;
  }
  private V nul(V v) { return v.equals(ABSENT) ? V.NULL : v; }

  List<Engine.Out> map(String name, V[] a, St st) {
    V m = mapBase(st, a[0]);
    List<Engine.Out> r = new ArrayList<>();
    switch (name) {
      case "get":
        touch("map.get", m, st);
        for (Engine.Out o : lookup(st, m, a[1])) r.add(Engine.Out.ret(o.st, nul(o.val)));
        return r;
      case "getOrDefault":
        touch("map.get", m, st);
        for (Engine.Out o : lookup(st, m, a[1])) {
          St[] s = en.split(o.st, presentAtom(o.val));
          if (s[1] != null) r.add(Engine.Out.ret(s[1], nul(o.val)));
          if (s[0] != null) r.add(Engine.Out.ret(s[0], a[2]));
        }
        return r;
      case "containsKey":
        touch("map.get", m, st);
        for (Engine.Out o : lookup(st, m, a[1])) r.add(Engine.Out.ret(o.st, presentAtom(o.val)));
        return r;
      case "put":
        for (Engine.Out o : lookup(st, m, a[1])) {
          en.eff(Eff.K.MUT, "map.put", m, List.of(a[1], a[2]), o.st);
          mapStore(o.st, m, a[1], a[2]);
          r.add(Engine.Out.ret(o.st, nul(o.val)));
        }
        return r;
      case "putIfAbsent":
      case "computeIfAbsent":
        for (Engine.Out o : lookup(st, m, a[1])) {
          V old = nul(o.val);
          St[] s = en.split(o.st, St.isNull(old));
          if (s[0] != null) r.add(Engine.Out.ret(s[0], old));
          if (s[1] != null) {
            if (name.equals("putIfAbsent")) {
              en.eff(Eff.K.MUT, "map.put", m, List.of(a[1], a[2]), s[1]);
              mapStore(s[1], m, a[1], a[2]);
              r.add(Engine.Out.ret(s[1], V.NULL));
            } else {
              for (Engine.Out f : en.callFn(a[2], "java/util/function/Function", "apply", "(Ljava/lang/Object;)Ljava/lang/Object;", new V[]{a[1]}, s[1])) {
                if (f.exc != null) { r.add(f); continue; }
                en.eff(Eff.K.MUT, "map.put", m, List.of(a[1], f.val), f.st);
                mapStore(f.st, m, a[1], f.val);
                r.add(Engine.Out.ret(f.st, f.val));
              }
            }
          }
        }
        return r;
      case "replace":
        if (a.length != 3) break;
        for (Engine.Out o : lookup(st, m, a[1])) {
          St[] s = en.split(o.st, presentAtom(o.val));
          if (s[0] != null) r.add(Engine.Out.ret(s[0], V.NULL));
          if (s[1] != null) {
            en.eff(Eff.K.MUT, "map.put", m, List.of(a[1], a[2]), s[1]);
            mapStore(s[1], m, a[1], a[2]);
            r.add(Engine.Out.ret(s[1], nul(o.val)));
          }
        }
        return r;
      case "remove":
        if (a.length != 2) break;
        for (Engine.Out o : lookup(st, m, a[1])) {
          St[] s = en.split(o.st, presentAtom(o.val));
          if (s[0] != null) r.add(Engine.Out.ret(s[0], V.NULL));
          if (s[1] != null) {
            en.eff(Eff.K.MUT, "map.remove", m, List.of(a[1]), s[1]);
            mapDelete(s[1], m, a[1]);
            r.add(Engine.Out.ret(s[1], nul(o.val)));
          }
        }
        return r;
      case "isEmpty": return ret(st, isEmpty(st, m));
      case "size": return ret(st, size(st, m));
      case "values": case "keySet": case "entrySet":
        return ret(st, nn(V.app(name, name.equals("values") ? "java/util/Collection" : "java/util/Set", m)));
      case "forEach": {
        for (Engine.LoopOut o : en.forElems(st, V.app("entrySet", "java/util/Set", m), (s, e) -> {
          List<Engine.Step> x = new ArrayList<>();
          for (Engine.Out f : en.callFn(a[1], "java/util/function/BiConsumer", "accept",
              "(Ljava/lang/Object;Ljava/lang/Object;)V", new V[]{entryKey(e), entryVal(e)}, s))
            x.add(f.exc != null ? Engine.Step.thr(f.st, f.exc) : Engine.Step.cont(f.st));
          return x;
        })) r.add(o.exc != null ? Engine.Out.thr(o.st, o.exc) : Engine.Out.ret(o.st, null));
        return r;
      }
      case "replaceAll": {
        for (Engine.LoopOut o : en.forElems(st, V.app("entrySet", "java/util/Set", m), (s, e) -> {
          List<Engine.Step> x = new ArrayList<>();
          for (Engine.Out f : en.callFn(a[1], "java/util/function/BiFunction", "apply",
              "(Ljava/lang/Object;Ljava/lang/Object;)Ljava/lang/Object;", new V[]{entryKey(e), entryVal(e)}, s)) {
            if (f.exc != null) { x.add(Engine.Step.thr(f.st, f.exc)); continue; }
            if (!f.val.equals(entryVal(e))) {
              en.eff(Eff.K.MUT, "map.put", m, List.of(entryKey(e), f.val), f.st);
              mapStore(f.st, m, entryKey(e), f.val);
            }
            x.add(Engine.Step.cont(f.st));
          }
          return x;
        })) r.add(o.exc != null ? Engine.Out.thr(o.st, o.exc) : Engine.Out.ret(o.st, null));
        return r;
      }
      case "containsValue": {
        touch("map.get", m, st);
        V known = st.get(m, "$map");
        List<V> vals = known != null ? Arrays.asList(known.a) : st.get(m, "$ovl") != null ? Arrays.asList(st.get(m, "$ovl").a) : List.of();
        St rest = st;
        for (int i = 1; i < vals.size() && rest != null; i += 2) {
          if (vals.get(i).equals(ABSENT)) continue;
          St[] sp = en.split(rest, vals.get(i).isNull() || a[1].isNull() ? sameAtom(rest, vals.get(i), a[1]) : eqAtom(rest, vals.get(i), a[1]));
          if (sp[1] != null) r.add(Engine.Out.ret(sp[1], V.TRUE));
          rest = sp[0];
        }
        if (rest != null) r.add(Engine.Out.ret(rest, known != null || m.is("emptyMap") ? V.FALSE : V.app("containsValue" + ver(rest, m), "Z", m, a[1])));
        return r;
      }
      case "compute": case "computeIfPresent": case "merge": {
        String bi = "java/util/function/BiFunction", bd = "(Ljava/lang/Object;Ljava/lang/Object;)Ljava/lang/Object;";
        for (Engine.Out o : lookup(st, m, a[1])) {
          V old = nul(o.val);
          boolean both = name.equals("compute");
          St[] s = both ? new St[]{o.st, null} : en.split(o.st, St.isNull(old));
          if (s[1] != null) { // nothing there
            if (name.equals("merge")) {
              en.eff(Eff.K.MUT, "map.put", m, List.of(a[1], a[2]), s[1]);
              mapStore(s[1], m, a[1], a[2]);
              r.add(Engine.Out.ret(s[1], a[2]));
            } else r.add(Engine.Out.ret(s[1], V.NULL));
          }
          if (s[0] == null) continue;
          V fn = name.equals("merge") ? a[3] : a[2];
          V[] args = name.equals("merge") ? new V[]{old, a[2]} : new V[]{a[1], old};
          for (Engine.Out g : en.callFn(fn, bi, "apply", bd, args, s[0])) {
            if (g.exc != null) { r.add(g); continue; }
            St[] t = en.split(g.st, St.isNull(g.val));
            if (t[1] != null) {
              en.eff(Eff.K.MUT, "map.remove", m, List.of(a[1]), t[1]);
              mapDelete(t[1], m, a[1]);
              r.add(Engine.Out.ret(t[1], V.NULL));
            }
            if (t[0] != null) {
              en.eff(Eff.K.MUT, "map.put", m, List.of(a[1], g.val), t[0]);
              mapStore(t[0], m, a[1], g.val);
              r.add(Engine.Out.ret(t[0], g.val));
            }
          }
        }
        return r;
      }
      case "clear":
        en.eff(Eff.K.MUT, "map.clear", m, List.of(), st);
        st.drop(m, "$ovl");
        st.put(m, "$map", V.app("$map", null));
        bump(st, m);
        return ret(st, null);
      case "putAll": {
        V from = mapBase(st, a[1]);
        V known = from.is("emptyMap") ? V.app("$map", null) : st.get(from, "$map");
        if (known == null) break;
        List<St> cur = List.of(st);
        for (int i = 0; i < known.a.length; i += 2) {
          List<St> nx = new ArrayList<>();
          for (St x : cur) for (Engine.Out o : map("put", new V[]{m, known.a[i], known.a[i + 1]}, x)) nx.add(o.st);
          cur = nx;
        }
        for (St x : cur) r.add(Engine.Out.ret(x, null));
        return r;
      }
      default:
    }
    en.eff(Eff.K.MUT, "map." + name, m, Arrays.asList(a).subList(1, a.length), st);
    bump(st, m);
    st.drop(m, "$ovl");
    st.drop(m, "$map");
    st.note("map." + name);
    en.unmodelled.add("map." + name);
    return ret(st, V.res(st.id(), "map." + name, null));
  }
  V entryKey(V e) { return e.is("entry") ? e.a[0] : V.app("getKey", null, e); }
  V entryVal(V e) { return e.is("entry") ? e.a[1] : V.app("getValue", null, e); }
  private void touch(String op, V c, St st) { en.eff(Eff.K.READ, op, c, List.of(), st); }
  static V nn(V v) { v.nonNull = true; return v; }

  // ---- queues and lists --------------------------------------------------------------------

  boolean unbounded(V q, St st) {
    if (q.type == null) return false;
    switch (V.shortName(q.type)) {
      case "ConcurrentLinkedQueue": case "ConcurrentLinkedDeque": case "LinkedList": case "ArrayDeque":
      case "PriorityQueue": case "LinkedTransferQueue": case "PriorityBlockingQueue": return true;
      case "LinkedBlockingQueue": case "LinkedBlockingDeque": {
        V c = st.get(q, "$ctor");
        return c != null && c.a.length == 0;
      }
      default: return false;
    }
  }

  List<Engine.Out> queue(String name, V[] a, St st, String desc) {
    V q = a[0];
    List<Engine.Out> r = new ArrayList<>();
    int n = a.length - 1;
    switch (name) {
      case "isEmpty": touch("queue.size", q, st); return ret(st, isEmpty(st, q));
      case "size": touch("queue.size", q, st); return ret(st, size(st, q));
      case "offer": case "offerLast": case "add": case "addLast": case "offerFirst": case "addFirst": case "push": {
        if (n != 1) break;
        boolean first = name.endsWith("First") || name.equals("push");
        boolean offer = name.startsWith("offer");
        String op = first ? "queue.offerFirst" : "queue.offer";
        if (!unbounded(q, st)) {
          St s2 = st.copy();
          Eff e = en.eff(Eff.K.MUT, op, q, List.of(a[1]), s2);
          e.res = V.FALSE;
          if (offer) r.add(Engine.Out.ret(s2, V.FALSE));
          else {
            e.thrown = en.newExc("java/lang/IllegalStateException", s2);
            r.add(Engine.Out.thr(s2, e.thrown));
          }
        }
        Eff e = en.eff(Eff.K.MUT, op, q, List.of(a[1]), st);
        e.res = V.TRUE;
        V held = q.k == V.K.OBJ && !q.op.startsWith("S") && unbounded(q, st) && !q.shortType().startsWith("Priority") ? st.get(q, "$list") : null;
        bump(st, q);
        if (held != null) {
          List<V> l = new ArrayList<>(Arrays.asList(held.a));
          l.add(first ? 0 : l.size(), a[1]);
          setList(st, q, l);
        } else st.drop(q, "$list");
        // another thread may have taken it by now, and done with it what it likes
        if (en.conc && a[1].k != V.K.LAM && a[1].type != null && en.prog.inApp(a[1].type) && (a[1].k != V.K.OBJ || !a[1].op.startsWith("S")))
          for (St.Cell c : new ArrayList<>(st.heap.values()))
            if (c.base.equals(a[1]) && !c.f.startsWith("$") && !St.FINALS.contains(a[1].type + "." + c.f)) st.put(c.base, c.f, V.fld(c.base, c.f, c.val == null ? null : c.val.type, st.id()));
        r.add(0, Engine.Out.ret(st, V.TRUE));
        return r;
      }
      case "poll": case "pollFirst": case "pollLast": case "remove": case "removeFirst": case "removeLast": case "pop": case "peek": case "peekFirst":
      case "element": case "getFirst": {
        if (n != 0) break;
        boolean peek = name.startsWith("peek") || name.equals("element") || name.equals("getFirst");
        boolean thr = name.equals("remove") || name.equals("removeFirst") || name.equals("removeLast") || name.equals("pop") || name.equals("element") || name.equals("getFirst");
        String op = peek ? "queue.peek" : name.endsWith("Last") ? "queue.pollLast" : "queue.poll";
        V head = st.get(q, "$head");
        Src known = source(st, q);
        if (known.known != null && q.k == V.K.OBJ && !q.op.startsWith("S") && !known.known.isEmpty()) {
          // a queue of known content
          boolean last = op.equals("queue.pollLast");
          V el = known.known.get(last ? known.known.size() - 1 : 0);
          if (!peek) {
            List<V> rest = known.known.subList(last ? 0 : 1, known.known.size() - (last ? 1 : 0));
            bump(st, q);
            setList(st, q, rest);
          }
          Eff e = en.eff(Eff.K.MUT, op, q, List.of(), st);
          e.res = el;
          return ret(st, el);
        }
        V sz = size(st, q);
        St[] s = en.split(st, V.app("iszero", "Z", sz));
        if (s[0] != null) s[0].sym = true;
        if (s[1] != null) {
          s[1].sym = true;
          Eff e = en.eff(Eff.K.MUT, op, q, List.of(), s[1]);
          e.res = V.NULL;
          if (thr) {
            V ex = en.newExc("java/util/NoSuchElementException", s[1]);
            e.thrown = ex;
            r.add(Engine.Out.thr(s[1], ex));
          } else r.add(Engine.Out.ret(s[1], V.NULL));
        }
        if (s[0] != null) {
          V el = head != null && !op.equals("queue.pollLast") ? head : V.res(s[0].id(), "queue.poll", null);
          el.nonNull = true;
          Eff e = en.eff(Eff.K.MUT, op, q, List.of(), s[0]);
          e.res = el;
          if (en.elemHook != null) en.elemHook.on(s[0], q, el);
          if (peek) s[0].put(q, "$head", el);
          else {
            s[0].drop(q, "$head");
            bump(s[0], q);
          }
          r.add(Engine.Out.ret(s[0], el));
        }
        return r;
      }
      case "contains": {
        if (n != 1) break;
        return ret(st, V.app("contains" + ver(st, q), "Z", q, a[1]));
      }
      default:
    }
    List<Engine.Out> c = collection(name, a, st, desc);
    if (c != null) return c;
    en.eff(Eff.K.MUT, "queue." + name, q, Arrays.asList(a).subList(1, a.length), st);
    bump(st, q);
    st.drop(q, "$list");
    String rt = Engine.ret(desc);
    return ret(st, rt.equals("V") ? null : V.res(st.id(), "queue." + name, rt));
  }

  /** Operations common to collections; null when not one of them. */
  List<Engine.Out> collection(String name, V[] a, St st, String desc) {
    V c = a[0];
    List<Engine.Out> r = new ArrayList<>();
    if (c.is("collected")) switch (name) {
      case "isEmpty": return pipe(st, c.a[0], (x, e) -> List.of(Engine.Step.brk(x, V.FALSE)), V.TRUE);
      case "size": return stream("count", new V[]{c.a[0]}, st, desc);
      case "stream": return ret(st, c.a[0]);
      case "iterator": case "listIterator": st.note("iteration over a collected stream"); break;
      default:
    }
    switch (name) {
      case "iterator": case "listIterator": case "descendingIterator": case "spliterator": {
        if (name.equals("spliterator")) return null;
        V it = V.obj(en.idPrefix + st.id(), "java/util/ListIterator", en.site());
        V src = name.equals("descendingIterator") ? V.app("reversed", null, c) : c;
        Src s = source(st, src);
        st.put(it, "$coll", src);
        V from = a.length > 1 ? a[1] : V.FALSE;
        st.put(it, "$from", from);
        if (s.known != null && from.isInt()) st.put(it, "$pos", from);
        return ret(st, it);
      }
      case "forEach": {
        for (Engine.LoopOut o : en.forElems(st, c, (s, e) -> {
          List<Engine.Step> x = new ArrayList<>();
          for (Engine.Out f : en.callFn(a[1], "java/util/function/Consumer", "accept", "(Ljava/lang/Object;)V", new V[]{e}, s))
            x.add(f.exc != null ? Engine.Step.thr(f.st, f.exc) : Engine.Step.cont(f.st));
          return x;
        })) r.add(o.exc != null ? Engine.Out.thr(o.st, o.exc) : Engine.Out.ret(o.st, null));
        return r;
      }
      case "stream": case "parallelStream":
        return ret(st, nn(V.app(name, "java/util/stream/Stream", c)));
      case "toArray": {
        V o = V.obj(en.idPrefix + st.id(), "[Ljava/lang/Object;", en.site());
        copyOf(st, o, c);
        return ret(st, o);
      }
      case "isEmpty": return ret(st, isEmpty(st, c));
      case "size": return ret(st, size(st, c));
      case "reversed": return ret(st, nn(V.app("reversed", c.type, c)));
      default: return null;
    }
  }

  List<Engine.Out> list(String name, V[] a, St st, String desc, boolean isSet) {
    V c = a[0];
    int n = a.length - 1;
    List<Engine.Out> r = new ArrayList<>();
    String kind = isSet ? "set" : "list";
    V known = st.get(c, "$list");
    switch (name) {
      case "get":
        if (n == 1) return ret(st, elemAt(st, c, a[1]));
        break;
      case "add": case "addIfAbsent": case "addLast": {
        if (n == 1 && (isSet || name.equals("addIfAbsent"))) {
          if (known != null) {
            St rest = st;
            for (V k : known.a) {
              if (rest == null) break;
              St[] s = en.split(rest, eqAtom(rest, k, a[1]));
              if (s[1] != null) r.add(Engine.Out.ret(s[1], V.FALSE));
              rest = s[0];
            }
            if (rest != null) {
              en.eff(Eff.K.MUT, "set.add", c, List.of(a[1]), rest);
              List<V> l = new ArrayList<>(Arrays.asList(known.a));
              l.add(a[1]);
              setList(rest, c, l);
              r.add(Engine.Out.ret(rest, V.TRUE));
            }
            return r;
          }
          V at = V.app("contains", "Z", c, a[1]);
          V o = st.get(c, "$in:" + a[1].key);
          if (o != null) at = o;
          St[] s = en.split(st, at);
          if (s[1] != null) r.add(Engine.Out.ret(s[1], V.FALSE));
          if (s[0] != null) {
            en.eff(Eff.K.MUT, "set.add", c, List.of(a[1]), s[0]);
            s[0].put(c, "$in:" + a[1].key, V.TRUE);
            r.add(Engine.Out.ret(s[0], V.TRUE));
          }
          return r;
        }
        if (n == 1) {
          en.eff(Eff.K.MUT, "list.add", c, List.of(a[1]), st);
          if (known != null) { List<V> l = new ArrayList<>(Arrays.asList(known.a)); l.add(a[1]); setList(st, c, l); }
          else bump(st, c);
          return ret(st, name.equals("addLast") ? null : V.TRUE);
        }
        break;
      }
      case "addAll": {
        if (n != 1) break;
        Src s = source(st, a[1]);
        if (s.known != null) {
          for (V e : s.known) {
            en.eff(Eff.K.MUT, "list.add", c, List.of(e), st);
          }
          if (known != null) { List<V> l = new ArrayList<>(Arrays.asList(known.a)); l.addAll(s.known); setList(st, c, l); }
          else bump(st, c);
        } else if (a[1].is("collected")) {
          return pipe(st, a[1].a[0], (x, e) -> {
            en.eff(Eff.K.MUT, "list.add", c, List.of(e), x);
            x.drop(c, "$list");
            bump(x, c);
            return List.of(Engine.Step.cont(x));
          }, V.TRUE);
        } else {
          for (Engine.LoopOut o : en.forElems(st, a[1], (x, e) -> {
            en.eff(Eff.K.MUT, "list.add", c, List.of(e), x);
            x.drop(c, "$list");
            bump(x, c);
            return List.of(Engine.Step.cont(x));
          })) r.add(Engine.Out.ret(o.st, V.TRUE));
          return r;
        }
        return ret(st, V.TRUE);
      }
      case "contains": {
        if (n != 1) break;
        if (c.is("collected")) return pipe(st, c.a[0], (x, e) -> {
          List<Engine.Step> l = new ArrayList<>();
          St[] sp = en.split(x, eqAtom(x, e, a[1]));
          if (sp[1] != null) l.add(Engine.Step.brk(sp[1], V.TRUE));
          if (sp[0] != null) l.add(Engine.Step.cont(sp[0]));
          return l;
        }, V.FALSE);
        if (c.is("keySet")) return map("containsKey", new V[]{c.a[0], a[1]}, st);
        if (c.is("values")) return map("containsValue", new V[]{c.a[0], a[1]}, st);
        touch("set.contains", c, st);
        V o = st.get(c, "$in:" + a[1].key);
        if (o != null) return ret(st, o);
        Src s = source(st, c);
        if (s.known != null) {
          St rest = st;
          for (V e : s.known) {
            if (rest == null) break;
            St[] sp = en.split(rest, eqAtom(rest, e, a[1]));
            if (sp[1] != null) r.add(Engine.Out.ret(sp[1], V.TRUE));
            rest = sp[0];
          }
          if (rest != null) r.add(Engine.Out.ret(rest, V.FALSE));
          return r;
        }
        return ret(st, V.app("contains", "Z", c, a[1]));
      }
      case "remove": {
        if (n != 1 || desc.startsWith("(I)")) break;
        if (known != null) {
          St rest = st;
          for (int i = 0; i < known.a.length && rest != null; i++) {
            St[] s = en.split(rest, eqAtom(rest, known.a[i], a[1]));
            if (s[1] != null) {
              en.eff(Eff.K.MUT, "set.remove", c, List.of(a[1]), s[1]);
              List<V> l = new ArrayList<>(Arrays.asList(known.a));
              l.remove(i);
              setList(s[1], c, l);
              r.add(Engine.Out.ret(s[1], V.TRUE));
            }
            rest = s[0];
          }
          if (rest != null) r.add(Engine.Out.ret(rest, V.FALSE));
          return r;
        }
        V o = st.get(c, "$in:" + a[1].key);
        V at = o != null ? o : V.app("contains", "Z", c, a[1]);
        St[] s = en.split(st, at);
        if (s[0] != null) r.add(Engine.Out.ret(s[0], V.FALSE));
        if (s[1] != null) {
          en.eff(Eff.K.MUT, "set.remove", c, List.of(a[1]), s[1]);
          s[1].drop(c, "$list");
          s[1].put(c, "$in:" + a[1].key, V.FALSE);
          bump(s[1], c);
          r.add(Engine.Out.ret(s[1], V.TRUE));
        }
        return r;
      }
      case "subList":
        return ret(st, nn(V.app("subList", c.type, source(st, c).base, a[1], a[2])));
      case "sort":
      default:
    }
    List<Engine.Out> x = collection(name, a, st, desc);
    if (x != null) return x;
    String rt = Engine.ret(desc);
    en.eff(Eff.K.MUT, kind + "." + name, c, Arrays.asList(a).subList(1, a.length), st);
    st.drop(c, "$list");
    bump(st, c);
    return ret(st, rt.equals("V") ? null : V.res(st.id(), kind + "." + name, rt));
  }

  List<Engine.Out> iter(String name, V[] a, St st) {
    V it = a[0];
    V coll = st.get(it, "$coll");
    List<Engine.Out> r = new ArrayList<>();
    boolean prev = name.equals("hasPrevious") || name.equals("previous");
    if (coll == null) {
      st.note("iterator");
      return ret(st, V.res(st.id(), "iter." + name, name.startsWith("has") ? "Z" : null));
    }
    Src s = source(st, coll);
    V pos = st.get(it, "$pos");
    if (s.known != null && pos != null && pos.isInt()) {
      int i = (int) pos.intVal();
      switch (name) {
        case "hasNext": return ret(st, V.bool(i < s.known.size()));
        case "hasPrevious": return ret(st, V.bool(i > 0));
        case "next": case "previous": {
          int j = prev ? i - 1 : i;
          if (j < 0 || j >= s.known.size()) return List.of(Engine.Out.thr(st, en.newExc("java/util/NoSuchElementException", st)));
          st.put(it, "$pos", V.num(prev ? i - 1 : i + 1));
          return ret(st, s.known.get(j));
        }
        default:
      }
    }
    V from = st.get(it, "$from");
    String dir;
    if (prev) {
      boolean full = from != null && from.equals(size(st, s.base));
      dir = (s.dir.equals("fwd") ? "rev" : "fwd") + (full ? "" : "?");
    } else dir = s.dir + (from != null && from.isInt() && from.intVal() == 0 ? "" : "?");
    V peek = st.get(it, "$peek");
    switch (name) {
      case "hasNext": case "hasPrevious": {
        if (peek != null && peek.isInt()) return ret(st, peek);
        St t = st.copy();
        t.sym = true;
        st.sym = true;
        t.put(it, "$peek", V.TRUE);
        r.add(Engine.Out.ret(t, V.TRUE));
        st.put(it, "$peek", V.FALSE);
        en.eff(Eff.K.ITER, "iter.done", s.base, List.of(V.str(dir), it), st);
        r.add(Engine.Out.ret(st, V.FALSE));
        en.forks++;
        return r;
      }
      case "next": case "previous": {
        if (peek != null && peek.isInt() && peek.intVal() == 0)
          return List.of(Engine.Out.thr(st, en.newExc("java/util/NoSuchElementException", st)));
        V e = V.res(st.id(), "elem", null);
        e.nonNull = noNulls(s.base);
        Eff ef = en.eff(Eff.K.ITER, "iter.next", s.base, List.of(V.str(dir), it), st);
        ef.res = e;
        seenIn(st, s.base, e);
        st.drop(it, "$peek");
        if (en.elemHook != null) en.elemHook.on(st, s.base, e);
        return ret(st, e);
      }
      case "remove":
        en.eff(Eff.K.MUT, "iter.remove", s.base, List.of(), st);
        return ret(st, null);
      case "forEachRemaining": {
        for (Engine.LoopOut o : en.forElems(st, coll, (x, e) -> {
          List<Engine.Step> l = new ArrayList<>();
          for (Engine.Out f : en.callFn(a[1], "java/util/function/Consumer", "accept", "(Ljava/lang/Object;)V", new V[]{e}, x))
            l.add(f.exc != null ? Engine.Step.thr(f.st, f.exc) : Engine.Step.cont(f.st));
          return l;
        })) r.add(o.exc != null ? Engine.Out.thr(o.st, o.exc) : Engine.Out.ret(o.st, null));
        return r;
      }
      default:
        st.note("iterator." + name);
        return ret(st, V.res(st.id(), "iter." + name, null));
    }
  }

  // ---- streams -----------------------------------------------------------------------------

  static final Set<String> LAZY = Set.of("filter", "map", "peek", "limit", "skip", "takeWhile", "dropWhile", "distinct", "flatMap", "sorted", "mapMulti");
  /** Marks a stream that ends before its source does. */
  private static final V CUT = V.app("cut", null);

  /** Applies a body to what comes out of a stream. */
  List<Engine.Out> pipe(St st, V stream, Engine.Body body, V result) {
    List<Engine.Out> r = new ArrayList<>();
    for (Engine.LoopOut o : pipeLoop(st, stream, body))
      r.add(o.exc != null ? Engine.Out.thr(o.st, o.exc) : Engine.Out.ret(o.st, o.exhausted ? result : o.val));
    return r;
  }
  List<Engine.LoopOut> pipeLoop(St st, V stream, Engine.Body body) {
    List<V> ops = new ArrayList<>();
    V s = stream;
    boolean sorted = false;
    while (s.k == V.K.APP && LAZY.contains(s.op)) {
      if (s.op.equals("sorted")) sorted = true; else ops.add(0, s);
      s = s.a[0];
    }
    V base = s.is("stream") ? s.a[0] : s.is("parallelStream") ? V.app("parallel", null, s.a[0]) : s;
    if (sorted && !base.is("parallel")) base = V.app("parallel", null, base);
    if (!s.is("stream") && !s.is("parallelStream")) st.note("stream source " + s.op);
    V src = base;
    V cnt = V.obj(en.idPrefix + st.id(), "java/lang/Object", en.site());
    for (int i = 0; i < ops.size(); i++) {
      String o = ops.get(i).op;
      if (o.equals("limit") || o.equals("skip")) st.put(cnt, "$n" + i, V.lng(0));
      if (o.equals("dropWhile")) st.put(cnt, "$n" + i, V.FALSE);
    }
    List<Engine.LoopOut> r = new ArrayList<>();
    for (Engine.LoopOut o : en.forElems(st, base, (x, e) -> chain(x, e, ops, 0, body, cnt, src)))
      r.add(o.val == CUT ? new Engine.LoopOut(o.st, null, null, true) : o);
    return r;
  }
  private List<Engine.Step> chain(St st, V e, List<V> ops, int i, Engine.Body body, V cnt, V src) {
    if (i == ops.size()) return body.apply(st, e);
    V o = ops.get(i);
    List<Engine.Step> r = new ArrayList<>();
    switch (o.op) {
      case "limit": case "skip": {
        boolean limit = o.op.equals("limit");
        if (limit && (o.a[1].isInt() && o.a[1].intVal() >= Integer.MAX_VALUE || i == 0 && whole(st, o.a[1], src))
            || !limit && o.a[1].isInt() && o.a[1].intVal() <= 0) return chain(st, e, ops, i + 1, body, cnt, src);
        V n = st.get(cnt, "$n" + i);
        if (n == null) n = V.res(st.id(), "count", "J");
        St[] s = en.splitCmp(st, "<", n, o.a[1]);
        if (s[1] != null) {
          s[1].put(cnt, "$n" + i, Engine.add(n, V.lng(1)));
          if (limit) r.addAll(chain(s[1], e, ops, i + 1, body, cnt, src)); else r.add(Engine.Step.cont(s[1]));
        }
        if (s[0] != null) {
          if (limit) r.add(Engine.Step.brk(s[0], CUT)); else r.addAll(chain(s[0], e, ops, i + 1, body, cnt, src));
        }
        return r;
      }
      case "dropWhile": {
        V begun = st.get(cnt, "$n" + i);
        St[] b = begun == null ? new St[]{st, null} : en.split(st, begun);
        if (b[1] != null) r.addAll(chain(b[1], e, ops, i + 1, body, cnt, src));
        if (b[0] == null) return r;
        for (Engine.Out f : test(o.a[1], e, b[0])) {
          if (f.exc != null) { r.add(Engine.Step.thr(f.st, f.exc)); continue; }
          St[] s = en.split(f.st, boolTerm(f.val));
          if (s[1] != null) r.add(Engine.Step.cont(s[1]));
          if (s[0] != null) {
            s[0].put(cnt, "$n" + i, V.TRUE);
            r.addAll(chain(s[0], e, ops, i + 1, body, cnt, src));
          }
        }
        return r;
      }
      case "distinct": {
        V from = source(st, src).base;
        boolean whole = true;
        for (int k = 0; k < i; k++) whole &= ops.get(k).op.equals("filter") || ops.get(k).op.equals("peek");
        if (!whole || !setLike(from)) {
          // the second of two equal elements
          St again = st.copy();
          if (!whole) again.note("distinct");
          else again.assume(V.app("repeated", "Z", e), true);
          r.add(Engine.Step.cont(again));
        }
        r.addAll(chain(st, e, ops, i + 1, body, cnt, src));
        return r;
      }
      case "filter": case "takeWhile":
        for (Engine.Out f : test(o.a[1], e, st)) {
          if (f.exc != null) { r.add(Engine.Step.thr(f.st, f.exc)); continue; }
          St[] s = en.split(f.st, boolTerm(f.val));
          if (s[0] != null) r.add(o.op.equals("filter") ? Engine.Step.cont(s[0]) : Engine.Step.brk(s[0], CUT));
          if (s[1] != null) r.addAll(chain(s[1], e, ops, i + 1, body, cnt, src));
        }
        return r;
      case "map": case "flatMap":
        for (Engine.Out f : en.callFn(o.a[1], "java/util/function/Function", "apply", "(Ljava/lang/Object;)Ljava/lang/Object;", new V[]{e}, st)) {
          if (f.exc != null) { r.add(Engine.Step.thr(f.st, f.exc)); continue; }
          if (o.op.equals("map")) { r.addAll(chain(f.st, f.val, ops, i + 1, body, cnt, src)); continue; }
          for (Engine.LoopOut q : pipeLoop(f.st, f.val, (x, y) -> chain(x, y, ops, i + 1, body, cnt, src)))
            r.add(q.exc != null ? Engine.Step.thr(q.st, q.exc) : q.exhausted ? Engine.Step.cont(q.st) : Engine.Step.brk(q.st, q.val));
        }
        return r;
      case "mapMulti": {
        V to = newKnown(st, "java/util/List", List.of(), false);
        for (Engine.Out f : en.callFn(o.a[1], "java/util/function/BiConsumer", "accept", "(Ljava/lang/Object;Ljava/lang/Object;)V", new V[]{e, nn(V.app("sink", "java/util/function/Consumer", to))}, st)) {
          if (f.exc != null) { r.add(Engine.Step.thr(f.st, f.exc)); continue; }
          List<Engine.Step> on = List.of(Engine.Step.cont(f.st));
          for (V x : f.st.get(to, "$list").a) {
            List<Engine.Step> next = new ArrayList<>();
            for (Engine.Step q : on)
              if (q.exc != null || q.brk) next.add(q);
              else next.addAll(chain(q.st, x, ops, i + 1, body, cnt, src));
            on = next;
          }
          r.addAll(on);
        }
        return r;
      }
      default:
        for (Engine.Out f : en.callFn(o.a[1], "java/util/function/Consumer", "accept", "(Ljava/lang/Object;)V", new V[]{e}, st)) {
          if (f.exc != null) r.add(Engine.Step.thr(f.st, f.exc));
          else r.addAll(chain(f.st, e, ops, i + 1, body, cnt, src));
        }
        return r;
    }
  }
  private List<Engine.Out> test(V pred, V e, St st) {
    return en.callFn(pred, "java/util/function/Predicate", "test", "(Ljava/lang/Object;)Z", new V[]{e}, st);
  }
  /** Is this number the size of the collection the stream runs over? */
  private boolean whole(St st, V n, V src) {
    V b = source(st, src).base;
    long[] d = st.range(n, V.app("size", "I", b));
    if (d[0] >= 0) return true;
    V z = size(st, src);
    d = st.range(n, z);
    return d[0] >= 0;
  }
  V boolTerm(V v) { return v.type == null ? Engine.retype(v, "Z") : v; }

  List<Engine.Out> stream(String name, V[] a, St st, String desc) {
    V s = a[0];
    switch (name) {
      case "boxed": return ret(st, s);
      case "mapToObj": case "mapToInt": return ret(st, nn(V.app("map", Engine.ret(desc), s, a[1])));
      case "filter": case "map": case "peek": case "limit": case "skip": case "takeWhile": case "dropWhile": case "flatMap": case "mapMulti":
        return ret(st, nn(V.app(name, "java/util/stream/Stream", s, a[1])));
      case "distinct": case "sorted":
        return ret(st, nn(V.app(name, "java/util/stream/Stream", s)));
      case "iterator":
        return collection("iterator", new V[]{V.app("collected", "java/util/List", s)}, st, desc);
      case "count": {
        List<Engine.Out> r = new ArrayList<>();
        for (Engine.Out o : gather(st, s)) {
          if (o.exc != null) r.add(o);
          else if (!o.val.is("collected")) r.add(Engine.Out.ret(o.st, V.lng(size(o.st, o.val).intVal())));
          else r.addAll(pipe(o.st, s, (x, e) -> {
            V n = V.res(x.id(), "count", "J");
            x.assumeCmp(">", n, V.FALSE, true);
            return List.of(Engine.Step.brk(x, n));
          }, V.lng(0)));
        }
        return r;
      }
      case "parallel": return ret(st, s.is("stream") ? nn(V.app("parallelStream", s.type, s.a[0])) : s);
      case "sequential": case "unordered": case "onClose": return ret(st, s);
      case "forEach": case "forEachOrdered":
        return pipe(st, s, (x, e) -> {
          List<Engine.Step> l = new ArrayList<>();
          for (Engine.Out f : en.callFn(a[1], "java/util/function/Consumer", "accept", "(Ljava/lang/Object;)V", new V[]{e}, x))
            l.add(f.exc != null ? Engine.Step.thr(f.st, f.exc) : Engine.Step.cont(f.st));
          return l;
        }, null);
      case "anyMatch": case "allMatch": case "noneMatch": {
        boolean stopOn = !name.equals("allMatch");
        V found = name.equals("anyMatch") ? V.TRUE : V.FALSE;
        return pipe(st, s, (x, e) -> {
          List<Engine.Step> l = new ArrayList<>();
          for (Engine.Out f : en.callFn(a[1], "java/util/function/Predicate", "test", "(Ljava/lang/Object;)Z", new V[]{e}, x)) {
            if (f.exc != null) { l.add(Engine.Step.thr(f.st, f.exc)); continue; }
            St[] sp = en.split(f.st, boolTerm(f.val));
            St stop = stopOn ? sp[1] : sp[0], go = stopOn ? sp[0] : sp[1];
            if (stop != null) l.add(Engine.Step.brk(stop, found));
            if (go != null) l.add(Engine.Step.cont(go));
          }
          return l;
        }, name.equals("anyMatch") ? V.FALSE : V.TRUE);
      }
      case "findFirst": case "findAny":
        return pipe(st, s, (x, e) -> !e.nonNull && !x.assume(St.isNull(e), false) ? List.of() : List.of(Engine.Step.brk(x, nn(V.app("optional", "java/util/Optional", e)))),
            nn(V.app("optional", "java/util/Optional", V.NULL)));
      case "reduce": case "sum": {
        boolean sum = name.equals("sum");
        if (!sum && a.length != 3) break;
        V acc = V.obj(en.idPrefix + st.id(), "java/lang/Object", en.site());
        st.put(acc, "$acc", sum ? Engine.ret(desc).equals("J") ? V.lng(0) : V.num(0) : a[1]);
        List<Engine.Out> r = new ArrayList<>();
        for (Engine.LoopOut o : pipeLoop(st, s, (x, e) -> {
          List<Engine.Step> l = new ArrayList<>();
          V was = x.get(acc, "$acc");
          if (sum) {
            x.put(acc, "$acc", Engine.add(was, e));
            return List.of(Engine.Step.cont(x));
          }
          for (Engine.Out f : en.callFn(a[2], "java/util/function/BinaryOperator", "apply", "(Ljava/lang/Object;Ljava/lang/Object;)Ljava/lang/Object;", new V[]{was, e}, x)) {
            if (f.exc != null) { l.add(Engine.Step.thr(f.st, f.exc)); continue; }
            f.st.put(acc, "$acc", f.val);
            l.add(Engine.Step.cont(f.st));
          }
          return l;
        })) r.add(o.exc != null ? Engine.Out.thr(o.st, o.exc) : Engine.Out.ret(o.st, sum || a[1].isInt() ? nn(o.st.get(acc, "$acc")) : o.st.get(acc, "$acc")));
        return r;
      }
      case "collect": case "toList": {
        if (name.equals("collect")) {
          String c = a.length == 2 ? a[1].key : "";
          if (!c.contains("Collectors.toList") && !c.contains("Collectors.toSet") && !c.contains("Collectors.toUnmodifiable") && !c.contains("Collectors.toCollection")) {
            st.note("stream.collect " + c);
            return ret(st, V.res(st.id(), "stream.collect", Engine.ret(desc)));
          }
        }
        return gather(st, s);
      }
      default:
    }
    en.unmodelled.add("stream." + name);
    st.note("stream." + name);
    return ret(st, nn(V.app("stream." + name, Engine.ret(desc), a)));
  }

  /** The elements a stream yields, as a list; unknown sources are searched when the list is looked at. */
  private List<Engine.Out> gather(St st, V s) {
    V b = s;
    while (b.k == V.K.APP && LAZY.contains(b.op)) b = b.a[0];
    Src src = b.is("stream") || b.is("parallelStream") ? source(st, b.a[0]) : null;
    if (src == null || src.known == null) return ret(st, nn(V.app("collected", "java/util/List", s)));
    V acc = newKnown(st, "java/util/List", List.of(), false);
    return pipe(st, s, (x, e) -> {
      List<V> l = new ArrayList<>(Arrays.asList(x.get(acc, "$list").a));
      l.add(e);
      setList(x, acc, l);
      return List.of(Engine.Step.cont(x));
    }, acc);
  }

  List<Engine.Out> optional(String name, V[] a, St st) {
    V o = a[0];
    if (!o.is("optional")) o = V.app("optional", "java/util/Optional", V.app("optionalValue", null, o));
    V v = o.a[0];
    List<Engine.Out> r = new ArrayList<>();
    switch (name) {
      case "isPresent": return ret(st, en.not(St.isNull(v)));
      case "isEmpty": return ret(st, St.isNull(v));
      default:
    }
    St[] s = en.split(st, St.isNull(v));
    St none = s[1], some = s[0];
    switch (name) {
      case "get": case "orElseThrow":
        if (some != null) r.add(Engine.Out.ret(some, v));
        if (none != null) {
          if (a.length == 1) r.add(Engine.Out.thr(none, en.newExc("java/util/NoSuchElementException", none)));
          else for (Engine.Out f : en.callFn(a[1], "java/util/function/Supplier", "get", "()Ljava/lang/Object;", V.NONE, none))
            r.add(f.exc != null ? f : Engine.Out.thr(f.st, f.val));
        }
        return r;
      case "orElse":
        if (some != null) r.add(Engine.Out.ret(some, v));
        if (none != null) r.add(Engine.Out.ret(none, a[1]));
        return r;
      case "orElseGet":
        if (some != null) r.add(Engine.Out.ret(some, v));
        if (none != null) r.addAll(en.callFn(a[1], "java/util/function/Supplier", "get", "()Ljava/lang/Object;", V.NONE, none));
        return r;
      case "ifPresent": case "ifPresentOrElse":
        if (some != null) r.addAll(en.callFn(a[1], "java/util/function/Consumer", "accept", "(Ljava/lang/Object;)V", new V[]{v}, some));
        if (none != null) {
          if (a.length == 3) r.addAll(en.callFn(a[2], "java/lang/Runnable", "run", "()V", V.NONE, none));
          else r.add(Engine.Out.ret(none, null));
        }
        return r;
      case "map": case "flatMap":
        if (none != null) r.add(Engine.Out.ret(none, nn(V.app("optional", "java/util/Optional", V.NULL))));
        if (some != null) for (Engine.Out f : en.callFn(a[1], "java/util/function/Function", "apply", "(Ljava/lang/Object;)Ljava/lang/Object;", new V[]{v}, some))
          r.add(f.exc != null ? f : Engine.Out.ret(f.st, name.equals("flatMap") ? f.val : nn(V.app("optional", "java/util/Optional", f.val))));
        return r;
      case "filter":
        if (none != null) r.add(Engine.Out.ret(none, nn(V.app("optional", "java/util/Optional", V.NULL))));
        if (some != null) for (Engine.Out f : en.callFn(a[1], "java/util/function/Predicate", "test", "(Ljava/lang/Object;)Z", new V[]{v}, some)) {
          if (f.exc != null) { r.add(f); continue; }
          St[] sp = en.split(f.st, boolTerm(f.val));
          if (sp[1] != null) r.add(Engine.Out.ret(sp[1], o));
          if (sp[0] != null) r.add(Engine.Out.ret(sp[0], nn(V.app("optional", "java/util/Optional", V.NULL))));
        }
        return r;
      default:
        st.note("optional." + name);
        return ret(st, V.res(st.id(), "optional." + name, null));
    }
  }

  // ---- atomics -----------------------------------------------------------------------------

  List<Engine.Out> atomic(String cls, String name, V[] a, St st, String desc) {
    V o = a[0];
    String t = cls.equals("AtomicBoolean") ? "Z" : cls.equals("AtomicInteger") ? "I" : cls.equals("AtomicLong") || cls.equals("LongAdder") ? "J" : null;
    if (cls.equals("LongAdder")) switch (name) {
      case "increment": return atomic("AtomicLong", "incrementAndGet", a, st, desc);
      case "decrement": return atomic("AtomicLong", "decrementAndGet", a, st, desc);
      case "add": return atomic("AtomicLong", "addAndGet", a, st, desc);
      case "sum": case "intValue": case "longValue": return atomic("AtomicLong", "get", a, st, desc);
      default:
    }
    V cur;
    boolean keep = !en.conc || !st.locks.isEmpty();
    cur = keep ? st.get(o, "$val") : null;
    if (cur == null) {
      cur = V.fld(o, "$val", t, en.conc ? st.id() : 0);
      if (keep) st.put(o, "$val", cur);
    }
    List<Engine.Out> r = new ArrayList<>();
    switch (name) {
      case "get": case "getPlain": case "getAcquire": case "getOpaque": case "intValue": case "longValue": {
        if (en.conc) {
          Eff e = en.eff(Eff.K.READ, "$val", o, name.equals("getPlain") ? List.of(V.str("plain")) : List.of(), st);
          e.res = cur;
        }
        return ret(st, cur);
      }
      case "set": case "lazySet": case "setRelease": case "setPlain": case "setOpaque": {
        en.eff(Eff.K.WRITE, "$val", o, name.equals("setPlain") ? List.of(a[1], V.str("plain")) : List.of(a[1]), st);
        if (keep) st.put(o, "$val", a[1]); else st.drop(o, "$val");
        return ret(st, null);
      }
      case "getAndSet": {
        Eff e = en.eff(Eff.K.WRITE, "$val", o, List.of(a[1]), st);
        e.res = cur;
        if (keep) st.put(o, "$val", a[1]); else st.drop(o, "$val");
        return ret(st, cur);
      }
      case "compareAndSet": case "weakCompareAndSet": case "weakCompareAndSetPlain": case "weakCompareAndSetVolatile": case "compareAndExchange": {
        boolean xc = name.equals("compareAndExchange");
        St[] s;
        if ("Z".equals(t)) s = a[1].isInt() ? en.split(st, a[1].intVal() != 0 ? cur : en.not(cur)) : en.split(st, V.app("beq", "Z", cur, a[1]));
        else if (t != null) s = en.splitCmp(st, "==", cur, a[1]);
        else s = en.split(st, sameAtom(st, cur, a[1]));
        if (s[1] != null) {
          Eff e = en.eff(Eff.K.CAS, "$val", o, List.of(a[1], a[2]), s[1]);
          e.res = V.TRUE;
          if (keep) s[1].put(o, "$val", a[2]); else s[1].drop(o, "$val");
          r.add(Engine.Out.ret(s[1], xc ? a[1] : V.TRUE));
        }
        if (s[0] != null) {
          Eff e = en.eff(Eff.K.CAS, "$val", o, List.of(a[1], a[2]), s[0]);
          e.res = V.FALSE;
          r.add(Engine.Out.ret(s[0], xc ? cur : V.FALSE));
        }
        return r;
      }
      case "incrementAndGet": case "getAndIncrement": case "decrementAndGet": case "getAndDecrement": case "addAndGet": case "getAndAdd": {
        V d = name.startsWith("inc") || name.endsWith("Increment") ? V.num(1) : name.startsWith("dec") || name.endsWith("Decrement") ? V.num(-1) : a[1];
        V nv = Engine.add(cur, d);
        Eff e = en.eff(Eff.K.WRITE, "$val", o, List.of(nv), st);
        e.res = cur;
        if (keep) st.put(o, "$val", nv); else st.drop(o, "$val");
        return ret(st, name.startsWith("getAnd") ? cur : nv);
      }
      case "updateAndGet": case "getAndUpdate": {
        for (Engine.Out f : en.callFn(a[1], t == null ? "java/util/function/UnaryOperator" : "I".equals(t) ? "java/util/function/IntUnaryOperator" : "java/util/function/LongUnaryOperator",
            t == null ? "apply" : "I".equals(t) ? "applyAsInt" : "applyAsLong", "I".equals(t) || "J".equals(t) ? "(" + t + ")" + t : "(Ljava/lang/Object;)Ljava/lang/Object;", new V[]{cur}, st)) {
          if (f.exc != null) { r.add(f); continue; }
          en.eff(Eff.K.CAS, "$val", o, List.of(cur, f.val), f.st).res = V.TRUE;
          if (keep) f.st.put(o, "$val", f.val); else f.st.drop(o, "$val");
          r.add(Engine.Out.ret(f.st, name.startsWith("getAnd") ? cur : f.val));
        }
        return r;
      }
      case "accumulateAndGet": case "getAndAccumulate": {
        String n = t == null ? "" : "I".equals(t) ? "Int" : "Long", d = "I".equals(t) || "J".equals(t) ? t : "Ljava/lang/Object;";
        for (Engine.Out f : en.callFn(a[2], t == null ? "java/util/function/BinaryOperator" : "java/util/function/" + n + "BinaryOperator", t == null ? "apply" : "applyAs" + n, "(" + d + d + ")" + d, new V[]{cur, a[1]}, st)) {
          if (f.exc != null) { r.add(f); continue; }
          en.eff(Eff.K.CAS, "$val", o, List.of(cur, f.val), f.st).res = V.TRUE;
          if (keep) f.st.put(o, "$val", f.val); else f.st.drop(o, "$val");
          r.add(Engine.Out.ret(f.st, name.startsWith("getAnd") ? cur : f.val));
        }
        return r;
      }
      default:
        en.eff(Eff.K.WRITE, "$val", o, List.of(V.res(st.id(), name, t)), st);
        st.drop(o, "$val");
        st.note("atomic." + name);
        return ret(st, V.res(st.id(), "atomic." + name, Engine.ret(desc)));
    }
  }

  // ---- dispatch ----------------------------------------------------------------------------

  static final Set<String> QUEUES = Set.of("Queue", "Deque", "ConcurrentLinkedQueue", "ConcurrentLinkedDeque", "ArrayDeque",
      "BlockingQueue", "BlockingDeque", "LinkedBlockingQueue", "LinkedBlockingDeque", "ArrayBlockingQueue", "PriorityQueue",
      "PriorityBlockingQueue", "LinkedTransferQueue", "TransferQueue", "SynchronousQueue", "AbstractQueue");
  static final Set<String> DEQUE = Set.of("offer", "offerFirst", "offerLast", "addFirst", "push", "poll", "pollFirst", "pollLast", "remove", "removeFirst",
      "removeLast", "pop", "peek", "peekFirst", "element", "getFirst");
  static final Set<String> LISTS = Set.of("List", "ArrayList", "CopyOnWriteArrayList", "LinkedList", "AbstractList", "Vector", "Stack");
  static final Set<String> SETS = Set.of("Set", "HashSet", "LinkedHashSet", "CopyOnWriteArraySet", "TreeSet", "SortedSet",
      "ConcurrentSkipListSet", "KeySetView", "NavigableSet", "AbstractSet");
  static final Set<String> MAPS = Set.of("Map", "HashMap", "LinkedHashMap", "ConcurrentHashMap", "ConcurrentMap", "TreeMap",
      "SortedMap", "NavigableMap", "ConcurrentSkipListMap", "WeakHashMap", "IdentityHashMap", "AbstractMap", "Hashtable", "EnumMap");

  static boolean isColl(String t) {
    String s = V.shortName(t);
    return QUEUES.contains(s) || LISTS.contains(s) || SETS.contains(s) || s.equals("Collection") || s.equals("Iterable") || s.equals("Collection");
  }

  List<Engine.Out> call(int opc, String owner, String name, String desc, V[] a, St st) {
    String cls = V.shortName(owner);
    boolean stat = opc == Opcodes.INVOKESTATIC;
    String rt = Engine.ret(desc);
    if (name.equals("<init>")) return init(owner, cls, desc, a, st);
    if (stat) {
      List<Engine.Out> r = stat(owner, cls, name, desc, a, st, rt);
      if (r != null) return r;
    } else {
      List<Engine.Out> r = inst(owner, cls, name, desc, a, st, rt);
      if (r != null) return r;
    }
    return unknown(opc, owner, cls, name, desc, a, st, rt);
  }

  private List<Engine.Out> init(String owner, String cls, String desc, V[] a, St st) {
    V o = a[0];
    if (owner.equals("java/lang/Object")) return ret(st, null);
    V[] rest = Arrays.copyOfRange(a, 1, a.length);
    if (owner.equals("java/lang/Enum")) {
      st.put(o, "$ename", rest[0]);
      st.put(o, "$ordinal", rest[1]);
      return ret(st, null);
    }
    st.put(o, "$ctor", V.app("ctor", null, rest));
    if (cls.startsWith("Atomic") || cls.equals("LongAdder")) {
      st.put(o, "$val", rest.length > 0 ? rest[0] : cls.equals("AtomicBoolean") || cls.equals("AtomicInteger") ? V.FALSE
          : cls.equals("AtomicLong") || cls.equals("LongAdder") ? V.lng(0) : V.NULL);
      return ret(st, null);
    }
    if (desc.contains("Ljava/util/Comparator;") && (MAPS.contains(cls) || isColl(owner))) {
      // what counts as the same key is up to the comparator
      if (!cls.startsWith("Priority")) st.note("lib:" + cls + " with a comparator");
      if (MAPS.contains(cls)) st.put(o, "$map", V.app("$map", null)); else setList(st, o, List.of());
      return ret(st, null);
    }
    if (MAPS.contains(cls)) {
      if (rest.length == 1 && !"I".equals(rest[0].type) && !desc.contains("Ljava/lang/Class;")) {
        V m = mapBase(st, rest[0]);
        V k = st.get(m, "$map");
        if (k != null) st.put(o, "$map", k); else st.put(o, "$copyOf", m);
      } else st.put(o, "$map", V.app("$map", null));
      return ret(st, null);
    }
    if (isColl(owner)) {
      boolean sizeArg = rest.length > 0 && ("I".equals(rest[0].type) || rest[0].isInt() || desc.startsWith("(I"));
      if (rest.length == 0 || sizeArg) setList(st, o, List.of());
      else copyOf(st, o, rest[0]);
      return ret(st, null);
    }
    if (owner.equals("java/lang/Thread")) {
      for (int i = 0; i < rest.length; i++) {
        Type t = Type.getArgumentTypes(desc)[i];
        if (t.getInternalName().equals("java/lang/Runnable")) st.put(o, "$runnable", rest[i]);
        if (t.getInternalName().equals("java/lang/String")) st.put(o, "$name", rest[i]);
      }
      return ret(st, null);
    }
    if (owner.equals("java/lang/StringBuilder") || owner.equals("java/lang/StringBuffer")) {
      st.put(o, "$s", rest.length == 1 && !"I".equals(rest[0].type) ? rest[0] : V.str(""));
      return ret(st, null);
    }
    if (owner.equals("java/util/concurrent/ThreadPoolExecutor")) return ret(st, null);
    return ret(st, null);
  }

  private V[] expand(St st, V[] a, int from) {
    List<V> r = new ArrayList<>();
    for (int i = from; i < a.length; i++) {
      List<V> sp = i == a.length - 1 && a[i].type != null && a[i].type.startsWith("[") ? spread(st, a[i]) : null;
      if (sp != null) r.addAll(sp); else r.add(a[i]);
    }
    return r.toArray(V.NONE);
  }

  private List<Engine.Out> stat(String owner, String cls, String name, String desc, V[] a, St st, String rt) {
    switch (owner) {
      case "java/util/Objects":
        switch (name) {
          case "equals": {
            List<Engine.Out> r = new ArrayList<>();
            if (a[0].equals(a[1])) return ret(st, V.TRUE);
            St[] s = en.split(st, St.isNull(a[0]));
            if (s[1] != null) r.add(Engine.Out.ret(s[1], St.isNull(a[1])));
            if (s[0] != null) r.addAll(objectEquals(a[0], a[1], s[0]));
            return r;
          }
          case "nonNull": return ret(st, en.not(St.isNull(a[0])));
          case "isNull": return ret(st, St.isNull(a[0]));
          case "requireNonNull": {
            Boolean d = st.decideNull(a[0]);
            List<Engine.Out> r = new ArrayList<>();
            if (d == null && !en.mayBeNull(a[0])) { st.assume(St.isNull(a[0]), false); return ret(st, a[0]); }
            St[] s = en.split(st, St.isNull(a[0]));
            if (s[0] != null) r.add(Engine.Out.ret(s[0], a[0]));
            if (s[1] != null) r.add(Engine.Out.thr(s[1], en.newExc("java/lang/NullPointerException", s[1])));
            return r;
          }
          case "requireNonNullElse": case "requireNonNullElseGet": {
            List<Engine.Out> r = new ArrayList<>();
            St[] s = en.split(st, St.isNull(a[0]));
            if (s[0] != null) r.add(Engine.Out.ret(s[0], a[0]));
            if (s[1] != null) {
              if (name.endsWith("Get")) r.addAll(en.callFn(a[1], "java/util/function/Supplier", "get", "()Ljava/lang/Object;", V.NONE, s[1]));
              else r.add(Engine.Out.ret(s[1], a[1]));
            }
            return r;
          }
          case "hashCode": return ret(st, V.app("Objects.hashCode", "I", a[0]));
          case "hash": return ret(st, V.app("Objects.hash", "I", expand(st, a, 0)));
          default: return ret(st, V.app("Objects." + name, rt, a));
        }
      case "java/lang/Math": case "java/lang/StrictMath": {
        List<Engine.Out> r = number(name, a, st);
        return r != null ? r : unknown(0, owner, cls, name, null, a, st, rt);
      }
      case "java/lang/Boolean": case "java/lang/Integer": case "java/lang/Long":
        if (!cls.equals("Boolean")) {
          List<Engine.Out> n = number(name, a, st);
          if (n != null) return n;
        }
        if (name.equals("valueOf") && a.length == 1 && !"java/lang/String".equals(a[0].type)) return ret(st, a[0]);
        if (name.equals("compare") && a.length == 2) return ret(st, V.app("-", "I", a[0], a[1]));
        if (cls.equals("Integer") && name.equals("sum") || cls.equals("Long") && name.equals("sum")) return ret(st, Engine.add(a[0], a[1]));
        if (name.equals("logicalOr") || name.equals("logicalAnd")) {
          boolean or = name.equals("logicalOr");
          List<Engine.Out> r = new ArrayList<>();
          St[] s = en.split(st, boolTerm(a[1]));
          if (s[or ? 1 : 0] != null) r.add(Engine.Out.ret(s[or ? 1 : 0], V.bool(or)));
          if (s[or ? 0 : 1] != null) r.add(Engine.Out.ret(s[or ? 0 : 1], a[0]));
          return r;
        }
        if (name.equals("logicalXor")) {
          List<Engine.Out> r = new ArrayList<>();
          St[] x = en.split(st, boolTerm(a[0]));
          for (int i = 0; i < 2; i++) {
            if (x[i] == null) continue;
            St[] y = en.split(x[i], boolTerm(a[1]));
            for (int j = 0; j < 2; j++) if (y[j] != null) r.add(Engine.Out.ret(y[j], V.bool(i != j)));
          }
          return r;
        }
        return ret(st, nn(V.app(cls + "." + name, rt, a)));
      case "java/lang/String":
        if (name.equals("valueOf") && a.length == 1 && (a[0].isNull() || a[0].isStr() || "java/lang/String".equals(a[0].type))) {
          List<Engine.Out> r = new ArrayList<>();
          St[] s = en.split(st, St.isNull(a[0]));
          if (s[1] != null) r.add(Engine.Out.ret(s[1], V.str("null")));
          if (s[0] != null) r.add(Engine.Out.ret(s[0], a[0]));
          return r;
        }
        if (name.equals("valueOf")) return ret(st, nn(V.app("str", rt, a)));
        return ret(st, nn(V.app(name, rt, expand(st, a, 0))));
      case "java/lang/Thread":
        if (name.equals("currentThread")) return ret(st, en.thread != null ? en.thread : nn(V.app("currentThread", "java/lang/Thread")));
        break;
      case "java/util/Collections":
        switch (name) {
          case "singletonMap": {
            V o = V.obj(en.idPrefix + st.id(), "java/util/Map", en.site());
            st.put(o, "$map", V.app("$map", null, a));
            st.put(o, "$tag", V.str("immutable"));
            return ret(st, o);
          }
          case "emptyMap": return ret(st, nn(V.app("emptyMap", "java/util/Map")));
          case "emptyList": case "emptySet": return ret(st, newKnown(st, "java/util/List", List.of(), true));
          case "unmodifiableList": case "unmodifiableCollection": case "unmodifiableSet": case "synchronizedList":
          case "synchronizedCollection": case "synchronizedSet": {
            V o = V.obj(en.idPrefix + st.id(), "java/util/List", en.site());
            st.put(o, "$wrap", V.str(name));
            return ret(st, copyOf(st, o, a[0]));
          }
          case "unmodifiableMap": case "synchronizedMap": {
            V o = V.obj(en.idPrefix + st.id(), "java/util/Map", en.site());
            st.put(o, "$wrap", V.str(name));
            V k = st.get(a[0], "$map");
            if (k != null) st.put(o, "$map", k); else st.put(o, "$copyOf", a[0]);
            return ret(st, o);
          }
          case "reverse": {
            V l = st.get(a[0], "$list");
            if (l != null) {
              List<V> x = new ArrayList<>(Arrays.asList(l.a));
              Collections.reverse(x);
              setList(st, a[0], x);
            } else if (st.get(a[0], "$copyOf") != null) {
              V d = st.get(a[0], "$dir");
              if (d != null && "rev".equals(d.x)) st.drop(a[0], "$dir");
              else st.put(a[0], "$dir", V.str("rev"));
            } else {
              en.eff(Eff.K.MUT, "list.reverse", a[0], List.of(), st);
              bump(st, a[0]);
            }
            return ret(st, null);
          }
          case "shuffle": {
            // one of the orders, two of which are followed
            V l = st.get(a[0], "$list");
            if (l == null && st.get(a[0], "$copyOf") == null || l != null && l.a.length < 2) break;
            St same = st.copy();
            List<Engine.Out> r = new ArrayList<>(stat(owner, cls, "reverse", "(Ljava/util/List;)V", new V[]{a[0]}, st, rt));
            r.add(Engine.Out.ret(same, null));
            return r;
          }
          case "swap": {
            V l = st.get(a[0], "$list");
            if (l == null || !a[1].isInt() || !a[2].isInt()) {
              st.note("Collections.swap");
              en.eff(Eff.K.MUT, "list.swap", a[0], List.of(), st);
              bump(st, a[0]);
              return ret(st, null);
            }
            int i = (int) a[1].intVal(), j = (int) a[2].intVal();
            if (i < 0 || j < 0 || i >= l.a.length || j >= l.a.length) return List.of(Engine.Out.thr(st, en.newExc("java/lang/IndexOutOfBoundsException", st)));
            List<V> x = new ArrayList<>(Arrays.asList(l.a));
            Collections.swap(x, i, j);
            setList(st, a[0], x);
            return ret(st, null);
          }
          case "newSetFromMap": {
            V o = V.obj(en.idPrefix + st.id(), "java/util/Set", en.site());
            st.put(o, "$ctor", V.app("ctor", null, a[0]));
            setList(st, o, List.of());
            return ret(st, o);
          }
          case "addAll": {
            Src s = source(st, a[1]);
            return list("addAll", new V[]{a[0], a[1]}, st, desc, false);
          }
          case "singletonList": case "singleton": return ret(st, newKnown(st, "java/util/List", List.of(a[0]), true));
          default:
        }
        break;
      case "java/util/concurrent/ConcurrentHashMap":
        if (name.equals("newKeySet")) {
          V o = V.obj(en.idPrefix + st.id(), "java/util/concurrent/ConcurrentHashMap$KeySetView", en.site());
          setList(st, o, List.of());
          return ret(st, o);
        }
        break;
      case "java/util/List": case "java/util/Set":
        if (name.equals("of")) {
          if (a.length == 1 && desc.contains("[")) {
            List<V> sp = spread(st, a[0]);
            if (sp == null) return ret(st, nn(V.app("aslist", "java/util/List", a[0])));
            return ret(st, newKnown(st, "java/util/List", sp, true));
          }
          return ret(st, newKnown(st, "java/util/List", Arrays.asList(a), true));
        }
        if (name.equals("copyOf")) {
          V o = V.obj(en.idPrefix + st.id(), "java/util/List", en.site());
          return ret(st, copyOf(st, o, a[0]));
        }
        break;
      case "java/util/Map":
        if (name.equals("of") && a.length % 2 == 0) {
          V o = V.obj(en.idPrefix + st.id(), "java/util/Map", en.site());
          st.put(o, "$map", V.app("$map", null, a));
          st.put(o, "$tag", V.str("immutable"));
          return ret(st, o);
        }
        if (name.equals("copyOf")) {
          V k = st.get(a[0], "$map");
          if (k != null) for (V v : k.a) if (v.isNull()) return List.of(Engine.Out.thr(st, en.newExc("java/lang/NullPointerException", st)));
          V o = V.obj(en.idPrefix + st.id(), "java/util/Map", en.site());
          if (k != null) st.put(o, "$map", k); else st.put(o, "$copyOf", a[0]);
          st.put(o, "$tag", V.str("immutable"));
          return ret(st, o);
        }
        if (name.equals("entry")) return ret(st, nn(V.app("entry", "java/util/Map$Entry", a)));
        break;
      case "java/util/Arrays":
        if (name.equals("asList") || name.equals("stream")) {
          V c = nn(V.app("aslist", "java/util/List", a[0]));
          return ret(st, name.equals("stream") ? nn(V.app("stream", "java/util/stream/Stream", c)) : c);
        }
        if (name.equals("copyOf") || name.equals("copyOfRange")) {
          V o = V.obj(en.idPrefix + st.id(), a[0].type, en.site());
          if (name.equals("copyOf") && a[1].equals(size(st, a[0]))) return ret(st, copyOf(st, o, a[0]));
          return ret(st, nn(V.app("Arrays." + name, rt, a)));
        }
        return ret(st, V.app("Arrays." + name, rt, a));
      case "java/util/stream/Collectors":
        return ret(st, nn(V.app("Collectors." + name, "java/util/stream/Collector", a)));
      case "java/util/function/Predicate":
        if (name.equals("not")) return ret(st, nn(V.app("negate", owner, a[0])));
        if (name.equals("isEqual")) return ret(st, nn(V.app("isEqual", owner, a[0])));
        break;
      case "java/util/function/Function": case "java/util/function/UnaryOperator":
        if (name.equals("identity")) return ret(st, nn(V.app("identity", owner)));
        break;
      case "java/util/stream/IntStream":
        if (name.equals("iterate") && a.length == 3) return ret(st, nn(V.app("stream", owner, V.app("iterate", null, a[0], a[1], a[2]))));
        if (name.equals("range")) return ret(st, nn(V.app("stream", owner, V.app("range", null, a[0], a[1]))));
        if (name.equals("rangeClosed")) return ret(st, nn(V.app("stream", owner, V.app("range", null, a[0], Engine.add(a[1], V.num(1))))));
        break;
      case "java/util/stream/Stream":
        if (name.equals("iterate") && a.length == 3) return ret(st, nn(V.app("stream", owner, V.app("iterate", null, a[0], a[1], a[2]))));
        if (name.equals("of")) {
          if (desc.startsWith("([")) return ret(st, nn(V.app("stream", owner, nn(V.app("aslist", "java/util/List", a[0])))));
          return ret(st, nn(V.app("stream", owner, newKnown(st, "java/util/List", List.of(a[0]), true))));
        }
        if (name.equals("empty")) return ret(st, nn(V.app("stream", owner, newKnown(st, "java/util/List", List.of(), true))));
        if (name.equals("ofNullable")) {
          List<Engine.Out> r = new ArrayList<>();
          St[] s = en.split(st, St.isNull(a[0]));
          if (s[0] != null) r.addAll(ret(s[0], nn(V.app("stream", owner, newKnown(s[0], "java/util/List", List.of(a[0]), true)))));
          if (s[1] != null) r.addAll(ret(s[1], nn(V.app("stream", owner, newKnown(s[1], "java/util/List", List.of(), true)))));
          return r;
        }
        break;
      case "java/util/Optional":
        if (name.equals("of") || name.equals("ofNullable")) return ret(st, nn(V.app("optional", owner, a[0])));
        if (name.equals("empty")) return ret(st, nn(V.app("optional", owner, V.NULL)));
        break;
      case "java/util/concurrent/CompletableFuture":
        if (name.equals("runAsync") || name.equals("supplyAsync")) {
          if (a.length == 2) return inst("java/util/concurrent/Executor", "Executor", "execute", "(Ljava/lang/Runnable;)V", new V[]{a[1], a[0]}, st, "V");
          en.eff(Eff.K.CALL, "async." + name, null, Arrays.asList(a), st);
          return ret(st, nn(V.res(st.id(), "CompletableFuture." + name, owner)));
        }
        break;
      case "java/util/concurrent/ForkJoinPool":
        if (!name.equals("commonPool")) break;
      case "java/util/concurrent/Executors": {
        V o = V.obj(en.idPrefix + st.id(), "java/util/concurrent/ExecutorService", en.site());
        st.put(o, "$ctor", V.app("Executors." + name, null, a));
        return ret(st, o);
      }
      case "org/apache/logging/log4j/LogManager": {
        V o = V.obj(en.idPrefix + st.id(), "org/apache/logging/log4j/Logger", en.site());
        return ret(st, o);
      }
      default:
    }
    return null;
  }

  List<Engine.Out> objectEquals(V x, V y, St st) {
    if (en.inlineEquals && (x.k == V.K.OBJ || en.prog.inApp(x.type) && en.prog.isFinal(x.type)) && en.prog.inApp(x.type)) {
      Prog.M m = en.prog.resolve(x.type, "equals", "(Ljava/lang/Object;)Z");
      if (m != null) return en.inline(m, new V[]{x, y}, st);
    }
    return objectMethod("equals", x, new V[]{x, y}, st);
  }

  private List<Engine.Out> inst(String owner, String cls, String name, String desc, V[] a, St st, String rt) {
    V o = a[0];
    String dyn = o.type != null ? V.shortName(o.type) : cls;
    if (owner.startsWith("[") && name.equals("clone")) {
      V c = V.obj(en.idPrefix + st.id(), owner, en.site());
      return ret(st, copyOf(st, c, o));
    }
    if (owner.startsWith("org/apache/logging/log4j")) {
      if (name.startsWith("is") || rt.equals("Z")) return ret(st, V.res(st.id(), "log." + name, rt));
      if (!rt.equals("V")) return ret(st, nn(V.app("log." + name, rt, a)));
      en.eff(Eff.K.LOG, "log." + name, o, Arrays.asList(expand(st, a, 1)), st);
      return ret(st, null);
    }
    if ((cls.startsWith("Atomic") || cls.equals("LongAdder")) && owner.startsWith("java/util/concurrent/atomic/")) return atomic(cls, name, a, st, desc);
    if (MAPS.contains(cls)) return map(name, a, st);
    if (cls.equals("Map$Entry") || owner.equals("java/util/Map$Entry")) {
      if (name.equals("getKey")) return ret(st, entryKey(o));
      if (name.equals("getValue")) return ret(st, entryVal(o));
    }
    if (owner.equals("java/lang/Class") && o.isConst() && "class".equals(o.op)) {
      String t = (String) o.x;
      if (name.equals("isInstance")) return ret(st, instanceOf(st, a[1], t));
      if (name.equals("cast")) {
        List<Engine.Out> r = new ArrayList<>();
        St bad = st.copy();
        St[] n = en.split(bad, St.isNull(a[1]));
        if (n[1] != null) r.add(Engine.Out.ret(n[1], V.NULL));
        if (n[0] != null) {
          St[] i = en.split(n[0], boolTerm(instanceOf(n[0], a[1], t)));
          if (i[0] != null) r.add(Engine.Out.thr(i[0], en.newExc("java/lang/ClassCastException", i[0])));
          if (i[1] != null) r.add(Engine.Out.ret(i[1], Engine.retype(a[1], t)));
        }
        return r;
      }
    }
    if (owner.equals("java/util/Iterator") || owner.equals("java/util/ListIterator")) return iter(name, a, st);
    if (owner.equals("java/util/stream/IntStream")) return stream(name, a, st, desc);
    if (owner.equals("java/util/stream/Stream") || owner.equals("java/util/stream/BaseStream")) return stream(name, a, st, desc);
    if (owner.equals("java/util/Optional")) return optional(name, a, st);
    if (QUEUES.contains(cls) || "LinkedList".equals(cls) && DEQUE.contains(name) && (a.length == 1 || !name.equals("remove"))) return queue(name, a, st, desc);
    if (LISTS.contains(cls)) return QUEUES.contains(dyn) ? queue(name, a, st, desc) : list(name, a, st, desc, SETS.contains(dyn));
    if (SETS.contains(cls)) return list(name, a, st, desc, true);
    if (cls.equals("Collection") || cls.equals("Iterable") || cls.equals("AbstractCollection")) {
      if (o.is("values") || o.is("keySet") || o.is("entrySet")) {
        List<Engine.Out> c = collection(name, a, st, desc);
        if (c != null) return c;
      }
      if (QUEUES.contains(dyn)) return queue(name, a, st, desc);
      return list(name, a, st, desc, SETS.contains(dyn));
    }
    switch (owner) {
      case "java/lang/Boolean": case "java/lang/Integer": case "java/lang/Long":
        if (name.endsWith("Value")) return ret(st, o);
        break;
      case "java/lang/String":
        if (name.equals("isEmpty")) return ret(st, o.isStr() ? V.bool(((String) o.x).isEmpty()) : V.app("iszero", "Z", V.app("length", "I", o)));
        if (name.equals("length") && o.isStr()) return ret(st, V.num(((String) o.x).length()));
        if (name.equals("format") || name.equals("formatted")) return ret(st, nn(V.app("format", rt, expand(st, a, 0))));
        if (name.equals("concat")) return ret(st, nn(V.app("concat", rt, a)));
        if (a.length == 2 && WEAKER.contains(name)) {
          if (a[0].isStr() && a[1].isStr()) {
            String x = (String) a[0].x, y = (String) a[1].x;
            return ret(st, V.bool(name.equals("contentEquals") ? x.equals(y) : name.equals("equalsIgnoreCase") ? x.equalsIgnoreCase(y)
                : name.equals("startsWith") ? x.startsWith(y) : name.equals("endsWith") ? x.endsWith(y) : x.contains(y)));
          }
          St[] s = en.split(st, St.equalsTo(a[0], a[1]));
          List<Engine.Out> r = new ArrayList<>();
          if (s[1] != null) r.add(Engine.Out.ret(s[1], V.TRUE));
          if (s[0] != null) {
            if (name.equals("contentEquals") && "java/lang/String".equals(a[1].type)) r.add(Engine.Out.ret(s[0], V.FALSE));
            else for (St t : en.split(s[0], V.app(name, "Z", a))) if (t != null) r.add(Engine.Out.ret(t, V.bool(Boolean.TRUE.equals(t.decide(V.app(name, "Z", a))))));
          }
          return r;
        }
        if (name.equals("compareTo") && !(a[0].isStr() && a[1].isStr())) {
          St[] s = en.split(st, St.equalsTo(a[0], a[1]));
          List<Engine.Out> r = new ArrayList<>();
          if (s[1] != null) r.add(Engine.Out.ret(s[1], V.num(0)));
          V c = V.app(name, "I", a);
          if (s[0] != null && s[0].assumeCmp("==", c, V.num(0), false)) r.add(Engine.Out.ret(s[0], c));
          return r;
        }
        return ret(st, rt.startsWith("java/lang/String") ? nn(V.app(name, rt, a)) : V.app(name, rt, a));
      case "java/lang/StringBuilder": case "java/lang/StringBuffer":
        if (name.equals("append")) {
          V s = st.get(o, "$s");
          st.put(o, "$s", nn(V.app("concat", "java/lang/String", s == null ? V.str("") : s, a[1])));
          return ret(st, o);
        }
        return ret(st, nn(V.app("sb." + name, rt, a)));
      case "java/lang/Thread":
        switch (name) {
          case "getName": return ret(st, st.get(o, "$name") != null ? st.get(o, "$name") : nn(V.app("getName", rt, o)));
          case "setName": st.put(o, "$name", a[1]); en.eff(Eff.K.MUT, "Thread.setName", o, List.of(a[1]), st); return ret(st, null);
          case "setDaemon": st.put(o, "$daemon", a[1]); en.eff(Eff.K.MUT, "Thread.setDaemon", o, List.of(a[1]), st); return ret(st, null);
          case "setUncaughtExceptionHandler": st.put(o, "$handler", a[1]); en.eff(Eff.K.MUT, "Thread.setUncaughtExceptionHandler", o, List.of(a[1]), st); return ret(st, null);
          default: return plain("Thread." + name, o, a, st, rt);
        }
      case "java/util/concurrent/Executor": case "java/util/concurrent/ExecutorService":
      case "java/util/concurrent/ScheduledExecutorService": case "java/util/concurrent/ThreadPoolExecutor":
      case "java/util/concurrent/ForkJoinPool": {
        if (rt.equals("Z") && a.length == 1) return ret(st, V.app(name, "Z", o));
        St s2 = st.copy();
        Eff e2 = en.eff(Eff.K.CALL, "executor." + name, o, Arrays.asList(a).subList(1, a.length), s2);
        e2.thrown = V.exc(en.idPrefix + s2.id() + ":executor", "java/lang/RuntimeException", List.of());
        Eff e = en.eff(Eff.K.CALL, "executor." + name, o, Arrays.asList(a).subList(1, a.length), st);
        if (!rt.equals("V")) e.res = V.res(st.id(), "executor." + name, rt);
        return List.of(Engine.Out.ret(st, e.res), Engine.Out.thr(s2, e2.thrown));
      }
      case "java/util/concurrent/CountDownLatch":
        if (name.equals("await")) {
          St s2 = st.copy();
          Eff e2 = en.eff(Eff.K.CALL, "CountDownLatch.await", o, Arrays.asList(a).subList(1, a.length), s2);
          V ex = en.newExc("java/lang/InterruptedException", s2);
          e2.thrown = ex;
          Eff e = en.eff(Eff.K.CALL, "CountDownLatch.await", o, Arrays.asList(a).subList(1, a.length), st);
          if (!rt.equals("V")) e.res = V.res(st.id(), "await", rt);
          en.meanwhile("CountDownLatch.await", s2);
          en.meanwhile("CountDownLatch.await", st);
          return List.of(Engine.Out.ret(st, e.res), Engine.Out.thr(s2, ex));
        }
        return plain("CountDownLatch." + name, o, a, st, rt);
      case "java/util/concurrent/locks/Lock": case "java/util/concurrent/locks/ReentrantLock":
      case "java/util/concurrent/locks/ReentrantReadWriteLock$ReadLock": case "java/util/concurrent/locks/ReentrantReadWriteLock$WriteLock":
        if (name.equals("lock") || name.equals("lockInterruptibly")) { en.lock(st, o); return ret(st, null); }
        if (name.equals("unlock")) { en.unlock(st, o); return ret(st, null); }
        break;
      case "java/util/concurrent/locks/StampedLock":
        if (name.equals("writeLock") || name.equals("readLock")) {
          en.lock(st, nn(V.app(name, "java/util/concurrent/locks/Lock", o)));
          return ret(st, V.app(name.equals("readLock") ? "readStamp" : "writeStamp", "J", o));
        }
        if (name.equals("unlockWrite") || name.equals("unlockRead") || name.equals("unlock") && (a[1].is("readStamp") || a[1].is("writeStamp"))) {
          en.unlock(st, nn(V.app(name.equals("unlockRead") || name.equals("unlock") && a[1].is("readStamp") ? "readLock" : "writeLock", "java/util/concurrent/locks/Lock", o)));
          return ret(st, null);
        }
        break;
      case "java/util/concurrent/locks/ReadWriteLock": case "java/util/concurrent/locks/ReentrantReadWriteLock":
        return ret(st, nn(V.app(name, rt, o)));
      default:
    }
    // functional interfaces of the library
    if (owner.startsWith("java/util/function/") || owner.equals("java/lang/Runnable") || owner.equals("java/util/concurrent/Callable")
        || owner.equals("java/lang/Thread$UncaughtExceptionHandler") || owner.equals("java/util/concurrent/ThreadFactory")) {
      V how = owner.equals("java/util/concurrent/ThreadFactory") ? st.get(o, "$ctor") : null;
      if (how != null && (how.is("Executors.defaultThreadFactory") || how.is("Executors.privilegedThreadFactory"))) {
        V t = V.obj(en.idPrefix + st.id(), "java/lang/Thread", en.site());
        st.put(t, "$runnable", a[1]);
        st.put(t, "$name", nn(V.res(st.id(), "default thread name", "java/lang/String")));
        st.put(t, "$daemon", V.FALSE);
        return ret(st, t);
      }
      if (o.k == V.K.LAM && o.op.equals(name)) return en.callLam(o, Arrays.copyOfRange(a, 1, a.length), st);
      if ((name.equals("negate") || name.equals("and") || name.equals("or")) && owner.equals("java/util/function/Predicate")) return ret(st, nn(V.app(name, owner, a)));
      if (name.equals("andThen") || name.equals("compose")) return ret(st, nn(V.app(name, owner, a)));
      if (o.k == V.K.APP && en.composed(o)) return en.callFn(o, owner, name, desc, Arrays.copyOfRange(a, 1, a.length), st);
      return en.external(cls + "." + name, o, a, desc, st);
    }
    return null;
  }

  /** Arithmetic that is decided by comparisons. */
  private List<Engine.Out> number(String name, V[] a, St st) {
    for (V v : a) if (!"I".equals(v.type) && !"J".equals(v.type)) return null;
    List<Engine.Out> r = new ArrayList<>();
    switch (name + "/" + a.length) {
      case "max/2": case "min/2": {
        St[] s = en.splitCmp(st, name.equals("max") ? ">=" : "<=", a[0], a[1]);
        if (s[1] != null) r.add(Engine.Out.ret(s[1], a[0]));
        if (s[0] != null) r.add(Engine.Out.ret(s[0], a[1]));
        return r;
      }
      case "abs/1": {
        St[] s = en.splitCmp(st, ">=", a[0], V.num(0));
        if (s[1] != null) r.add(Engine.Out.ret(s[1], a[0]));
        if (s[0] != null) r.add(Engine.Out.ret(s[0], V.app("neg", a[0].type, a[0])));
        return r;
      }
      case "signum/1": {
        St[] s = en.splitCmp(st, ">", a[0], V.num(0));
        if (s[1] != null) r.add(Engine.Out.ret(s[1], V.num(1)));
        if (s[0] == null) return r;
        s = en.splitCmp(s[0], "==", a[0], V.num(0));
        if (s[1] != null) r.add(Engine.Out.ret(s[1], V.num(0)));
        if (s[0] != null) r.add(Engine.Out.ret(s[0], V.num(-1)));
        return r;
      }
      case "addExact/2": return ret(st, Engine.add(a[0], a[1]));
      case "incrementExact/1": return ret(st, Engine.add(a[0], V.num(1)));
      case "decrementExact/1": return ret(st, Engine.add(a[0], V.num(-1)));
      case "toIntExact/1": return ret(st, a[0]);
      default: return null;
    }
  }

  private List<Engine.Out> plain(String op, V o, V[] a, St st, String rt) {
    Eff e = en.eff(Eff.K.CALL, op, o, Arrays.asList(a).subList(1, a.length), st);
    if (!rt.equals("V")) e.res = V.res(st.id(), op, rt);
    return ret(st, e.res);
  }

  private List<Engine.Out> unknown(int opc, String owner, String cls, String name, String desc, V[] a, St st, String rt) {
    boolean pure = owner.startsWith("java/lang/") && !owner.equals("java/lang/Thread") && !owner.equals("java/lang/Object")
        && !owner.equals("java/lang/Runtime") && !owner.equals("java/lang/System") && !owner.equals("java/lang/Process")
        || cls.equals("StringJoiner") || owner.startsWith("java/time/");
    boolean lam = false;
    for (V v : a) if (v.k == V.K.LAM) lam = true;
    if (pure && !lam && !rt.equals("V")) {
      if (name.equals("desiredAssertionStatus")) return ret(st, V.FALSE);
      V r = V.app(cls + "." + name, rt, a);
      if (owner.startsWith("java/lang/String") || cls.equals("StringJoiner") || cls.equals("Class")) r.nonNull = true;
      return ret(st, r);
    }
    if (pure && !lam) return ret(st, null);
    if (name.equals("addSuppressed") || name.equals("printStackTrace") || name.equals("getMessage") || name.equals("initCause")) {
      return ret(st, rt.equals("V") ? null : V.app(name, rt, a[0]));
    }
    if (owner.equals("java/util/Comparator") && rt.equals("java/util/Comparator")) return ret(st, nn(V.app("Comparator." + name, owner, a)));
    boolean held = false;
    for (V v : a) held |= st.get(v, "$list") != null || st.get(v, "$copyOf") != null || st.get(v, "$map") != null;
    if (lam || held) { st.note("lib:" + cls + "." + name); en.unmodelled.add(cls + "." + name); }
    Eff e = en.eff(Eff.K.CALL, "lib:" + cls + "." + name, opc == Opcodes.INVOKESTATIC ? null : a[0],
        opc == Opcodes.INVOKESTATIC ? Arrays.asList(a) : Arrays.asList(a).subList(1, a.length), st);
    if (!rt.equals("V")) e.res = V.res(st.id(), cls + "." + name, rt);
    return ret(st, e.res);
  }
}
