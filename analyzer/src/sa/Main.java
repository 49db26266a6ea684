package sa;

import java.nio.file.*;
import java.util.*;

public final class Main {
  public static void main(String[] a) throws Exception {
    if (a[0].equals("run")) { System.exit(Run.run(a)); }
    Prog p = Prog.load(Path.of(System.getProperty("src", "/repo/src/main/java")), System.getProperty("libs"));
    if (a[0].equals("check")) {
      for (int i = 1; i < a.length; i++) {
        Rep r = new Rep(a[i]);
        long t0 = System.currentTimeMillis();
        Checks.run(p, r);
        System.out.println("== " + a[i] + ": " + r.discharged + "/" + r.obligations + " obligations, " + r.violations.size() + " violations, "
            + r.undecided.size() + " undecided, " + r.paths + " paths, " + r.steps + " steps, " + (System.currentTimeMillis() - t0) + " ms");
        for (String v : System.getProperty("full") != null ? r.details : r.violations) System.out.println("  BAD " + v);
        for (String v : r.undecided) System.out.println("  UNDECIDED " + v);
        for (String v : r.known) System.out.println("  KNOWN " + v);
      }
      return;
    }
    if (a[0].equals("dump")) {
      Engine e = new Engine(p);
      Prog.M m = p.method(a[1], a[2], -1);
      St st = e.newState();
      List<V> args = new ArrayList<>();
      if (!m.isStatic()) args.add(V.sym("this", m.c.name).nn());
      int i = 0;
      for (org.objectweb.asm.Type t : org.objectweb.asm.Type.getArgumentTypes(m.m.desc)) args.add(V.sym("p" + i++, Engine.internal(t)));
      dump(e.run(m, args.toArray(V.NONE), st), "");
      System.out.println(e.steps + " steps " + e.unmodelled);
    }
  }
  static void dump(List<Engine.Out> outs, String ind) {
    int n = 0;
    for (Engine.Out o : outs) {
      System.out.println(ind + "PATH " + (++n) + ": " + (o.exc != null ? "throw " + o.exc + " : " + o.exc.type + " not " + (o.exc.k == V.K.EXC ? o.exc.x : "") : "return " + o.val) + "  notes " + o.st.notes);
      System.out.println(ind + "  facts: " + o.st.factsText());
      for (Eff f : o.st.trace) dumpEff(f, ind + "    ");
    }
  }
  static void dumpEff(Eff f, String ind) {
    System.out.println(ind + f);
    if (f.loop != null) {
      System.out.println(ind + "  init " + f.loop.init);
      for (Loop.Iter it : f.loop.iters) {
        System.out.println(ind + "  iter upd " + it.upd);
        for (Eff g : it.effs) dumpEff(g, ind + "      ");
      }
    }
  }
}
