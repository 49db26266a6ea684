package sa;

import java.util.*;

/** An abstract value: an immutable term over the inputs of the analysed entry point. */
final class V {
  enum K { CONST, SYM, OBJ, FLD, RES, APP, LAM, EXC, LVAR }

  final K k;
  final String op;      // symbol name / field / operator
  final V[] a;          // operands
  final String type;    // internal name, descriptor of a primitive, or null when unknown
  final Object x;       // constant value, Handle, ...
  final String key;
  boolean nonNull;

  private V(K k, String op, V[] a, String type, Object x, String key) {
    this.k = k; this.op = op; this.a = a; this.type = type; this.x = x; this.key = key;
  }

  static final V[] NONE = new V[0];
  static final V NULL = new V(K.CONST, "null", NONE, null, null, "null");
  static final V TRUE = num(1);
  static final V FALSE = num(0);

  static V num(int i) { return new V(K.CONST, "int", NONE, "I", (long) i, Integer.toString(i)); }
  static V lng(long l) { return new V(K.CONST, "long", NONE, "J", l, l + "L"); }
  static V str(String s) { return new V(K.CONST, "str", NONE, "java/lang/String", s, "\"" + s + "\""); }
  static V cls(String t) { return new V(K.CONST, "class", NONE, "java/lang/Class", t, "class " + t); }
  static V other(Object o, String type) { return new V(K.CONST, "const", NONE, type, o, String.valueOf(o)); }
  static V bool(boolean b) { return b ? TRUE : FALSE; }

  static V sym(String name, String type) { return new V(K.SYM, name, NONE, type, null, name); }
  V nn() { nonNull = true; return this; }

  static V obj(String id, String type, String site) {
    V v = new V(K.OBJ, id, NONE, type, site, "new " + shortName(type) + "#" + id);
    v.nonNull = true;
    return v;
  }
  static V fld(V base, String field, String type, int ver) {
    return new V(K.FLD, field, new V[]{base}, type, ver, base.key + "." + field + (ver == 0 ? "" : "@" + ver));
  }
  static V res(int id, String what, String type) {
    return new V(K.RES, what, NONE, type, id, what + "$" + id);
  }
  static V app(String op, String type, V... args) {
    StringBuilder sb = new StringBuilder(op).append('(');
    for (int i = 0; i < args.length; i++) {
      if (i > 0) sb.append(", ");
      sb.append(args[i].key);
    }
    return new V(K.APP, op, args, type, null, sb.append(')').toString());
  }
  /** A condition that holds exactly on these of the ways an observer can return. */
  static V paths(String what, Object ways, String key) {
    return new V(K.APP, "paths", NONE, "Z", ways, "paths:" + what + "{" + key + "}");
  }
  static V lam(Object handle, String desc, String sam, String iface, V[] caps) {
    StringBuilder sb = new StringBuilder("lambda[").append(desc).append("](");
    for (int i = 0; i < caps.length; i++) {
      if (i > 0) sb.append(", ");
      sb.append(caps[i].key);
    }
    V v = new V(K.LAM, sam, caps, iface, handle, sb.append(')').toString());
    v.nonNull = true;
    return v;
  }
  /** An exception thrown by an unknown callee: at most of type upper, none of the excluded types. */
  static V exc(String id, String upper, List<String> not) {
    V v = new V(K.EXC, id, NONE, upper, not, "exc#" + id);
    v.nonNull = true;
    return v;
  }
  static V lvar(int loop, String what, String type) {
    return new V(K.LVAR, what, NONE, type, loop, "loop" + loop + ":" + what);
  }

  boolean isConst() { return k == K.CONST; }
  boolean isNull() { return k == K.CONST && "null".equals(op); }
  boolean isInt() { return k == K.CONST && (x instanceof Long); }
  long intVal() { return (Long) x; }
  boolean isStr() { return k == K.CONST && x instanceof String && "str".equals(op); }
  boolean is(String appOp) { return k == K.APP && op.equals(appOp); }
  boolean cat2() { return "J".equals(type) || "D".equals(type); }

  static String shortName(String t) {
    if (t == null) return "?";
    return t.substring(Math.max(t.lastIndexOf('/'), t.lastIndexOf('$')) + 1);
  }
  String shortType() { return shortName(type); }

  boolean mentions(V v) {
    if (equals(v)) return true;
    for (V c : a) if (c.mentions(v)) return true;
    return false;
  }

  @Override public boolean equals(Object o) { return o instanceof V && ((V) o).key.equals(key); }
  @Override public int hashCode() { return key.hashCode(); }
  @Override public String toString() { return key; }
}
