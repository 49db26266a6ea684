package sa;

import java.nio.file.*;
import java.util.*;

/** Collects the verdicts of one property. */
final class Rep {
  final String id;
  final List<String> violations = new ArrayList<>();
  final List<String> details = new ArrayList<>();
  final Set<String> known = new LinkedHashSet<>();
  final Set<String> undecided = new LinkedHashSet<>();
  final Map<String, Integer> rules = new LinkedHashMap<>();
  final Set<String> methods = new TreeSet<>();
  final Set<String> unmodelled = new TreeSet<>();
  final Set<String> roots = new LinkedHashSet<>();
  final Set<String> assumptions = new LinkedHashSet<>();
  final List<String> samples = new ArrayList<>();
  int obligations, discharged, paths, loops;
  long steps;
  final Map<String, String> knownKeys = new HashMap<>();   // key -> text, from the known-findings file
  private final Set<String> seen = new HashSet<>();

  // several ways to set up the analysed objects: each is tried, by running the rules once per choice
  private final List<int[]> script = new ArrayList<>();
  private int pos;
  int runs;
  boolean thorough;
  private final long t0 = System.nanoTime();
  final Set<String> covered = new HashSet<>(), uncovered = new LinkedHashSet<>();
  private final Map<String, Integer> made = new HashMap<>();
  int choose(int n) { return choose(n, null); }
  int choose(int n, String what) {
    if (n == 1) return 0;
    long product = 1;
    for (int i = 0; i < pos; i++) product *= script.get(i)[1];
    Integer was = what == null ? null : made.get(what + n);
    if (product >= 4 && was != null) return was; // the same thing set up again is set up the same way
    if (pos == script.size()) script.add(new int[]{0, n});
    int c = script.get(pos++)[0];
    if (what != null) made.put(what + n, c);
    return c;
  }
  void begin() { pos = 0; runs++; made.clear(); }
  /** A case no way of setting up the objects allows. */
  void end() {
    for (String u : uncovered) if (!covered.contains(u)) undecided(u, "no path is consistent with this case");
  }
  boolean again() {
    while (!script.isEmpty()) {
      int[] c = script.get(script.size() - 1);
      if (++c[0] < c[1]) {
        if (runs < 64 || runs < 512 && System.nanoTime() - t0 < 120e9) return true;
        undecided("analysis", "more than " + runs + " ways to set up the analysed objects");
        return false;
      }
      script.remove(script.size() - 1);
    }
    return false;
  }

  Rep(String id) { this.id = id; }

  /** One instance of a rule that held. */
  void ok(String rule) { obligations++; discharged++; rules.merge(rule, 1, Integer::sum); }

  void undecided(String rule, String why) {
    obligations++;
    rules.merge(rule, 1, Integer::sum);
    undecided.add(rule + ": " + why);
  }

  /** A violated rule instance, on a path when there is one. */
  void bad(String rule, String key, String msg, St st, V exc) {
    obligations++;
    rules.merge(rule, 1, Integer::sum);
    if (key != null && knownKeys.containsKey(key)) {
      known.add(knownKeys.get(key));
      return;
    }
    String head = rule + " -- " + msg;
    if (!seen.add(head)) return;
    violations.add(head);
    StringBuilder sb = new StringBuilder();
    sb.append("property ").append(id).append("\nrule: ").append(rule).append("\nviolation: ").append(msg).append('\n');
    if (key != null) sb.append("key: ").append(key).append('\n');
    if (st != null) {
      sb.append("path ends with ").append(exc == null ? "return" : "throw " + exc + " of type " + exc.type).append('\n');
      sb.append("path condition: ").append(st.factsText()).append("\npath:\n");
      show(sb, st.trace, "  ");
    }
    details.add(sb.toString());
  }
  static void show(StringBuilder sb, List<Eff> l, String ind) {
    for (Eff e : l) {
      sb.append(ind).append(e.k).append(' ').append(e.op);
      if (e.recv != null) sb.append(" on ").append(e.recv);
      sb.append(' ').append(e.args);
      if (e.res != null) sb.append(" -> ").append(e.res);
      if (e.thrown != null) sb.append(" throws ").append(e.thrown);
      if (!e.locks.isEmpty()) sb.append(" holding ").append(e.locks);
      sb.append("  at ").append(e.site);
      if (e.chain != null && !e.chain.isEmpty()) sb.append(" called from ").append(e.chain);
      sb.append('\n');
      if (e.loop != null) for (Loop.Iter it : e.loop.iters) {
        sb.append(ind).append("  an iteration:\n");
        show(sb, it.effs, ind + "    ");
      }
    }
  }

  void use(Engine e) {
    methods.addAll(e.methodsAnalysed);
    unmodelled.addAll(e.unmodelled);
    steps += e.steps;
  }
}
