package sa;

import java.io.*;
import java.nio.charset.StandardCharsets;
import java.nio.file.*;
import java.util.*;

/** Decides one property and reports: run ID VERIF_DIR. Exit 0 held, 1 violated, 2 no answer. */
final class Run {
  static int run(String[] a) throws Exception {
    String id = a[1];
    Path verif = Path.of(a[2]);
    String tier = "thorough".equals(System.getenv("VERIF_TIER")) ? "thorough" : "quick";
    if (a.length > 3) tier = a[3];
    long seed = 1;
    try { seed = Long.parseLong(System.getenv("VERIF_SEED")); } catch (RuntimeException x) { /* default */ }
    long t0 = System.nanoTime();
    Rep r = new Rep(id);
    r.thorough = tier.equals("thorough");
    for (String line : Files.readAllLines(verif.resolve("known-findings.txt"))) {
      if (!line.startsWith("known: property=" + id + " key=")) continue;
      String rest = line.substring(("known: property=" + id + " key=").length());
      int sp = rest.indexOf(' ');
      r.knownKeys.put(rest.substring(0, sp), rest.substring(sp + 1).trim());
    }
    String src = System.getProperty("src", "/repo/src/main/java");
    Prog p = null;
    String failure = null;
    try {
      p = Prog.load(Path.of(src), System.getProperty("libs"));
      Checks.run(p, r);
    } catch (Prog.CompileError x) {
      failure = "the source does not compile: " + x.getMessage();
    } catch (Prog.Missing x) {
      failure = "the source no longer has " + x.getMessage();
    }
    if (failure != null) r.undecided("analysis", failure);
    for (String k : r.known) System.out.println("KNOWN-FINDING: property=" + id + " " + k);
    for (String u : r.undecided) System.out.println("UNDECIDED: property=" + id + " " + u);
    Path out = verif.resolve("out");
    Files.createDirectories(out);
    Path replay = out.resolve(id + ".txt");
    Files.deleteIfExists(replay);
    int code;
    if (!r.violations.isEmpty()) {
      Files.writeString(replay, String.join("\n", r.details));
      for (String v : r.violations) System.out.println(v);
      System.out.println("VIOLATION property=" + id + " replay=" + replay);
      code = 1;
    } else if (failure != null || r.discharged == 0 && r.known.isEmpty()) {
      System.out.println("NO ANSWER: property=" + id + (failure != null ? " " + failure : " nothing was decided"));
      code = 2;
    } else {
      System.out.println("HELD: property=" + id + " " + r.discharged + " of " + r.obligations + " obligations discharged, " + r.undecided.size() + " undecided, " + r.known.size() + " known findings");
      code = 0;
    }
    Files.createDirectories(verif.resolve("evidence"));
    Files.writeString(verif.resolve("evidence").resolve(id + ".json"), json(r, p, tier, seed, (System.nanoTime() - t0) / 1e9));
    return code;
  }

  private static String json(Rep r, Prog p, String tier, long seed, double wall) {
    Map<String, Object> cov = new LinkedHashMap<>();
    cov.put("explanation", "The current source was compiled in memory and its bytecode interpreted abstractly, path by path, over symbolic inputs and states; nothing was executed and no solver was used. "
        + "Each obligation is one rule applied to one path (or loop, field, call site) of an analysed entry point; a violated one names the construct.");
    cov.put("obligations", r.obligations);
    cov.put("discharged", r.discharged);
    cov.put("undecided", new ArrayList<>(r.undecided));
    cov.put("known_findings", new ArrayList<>(r.known));
    cov.put("source_files", p == null ? 0 : p.fileCount);
    cov.put("methods_in_source", p == null ? 0 : p.methodCount);
    cov.put("methods_analysed", new ArrayList<>(r.methods));
    cov.put("entry_points", new ArrayList<>(r.roots));
    cov.put("paths", r.paths);
    cov.put("loops_widened", r.loops);
    cov.put("abstract_steps", r.steps);
    cov.put("setups", r.runs);
    cov.put("rules", r.rules);
    cov.put("unmodelled_library_calls", new ArrayList<>(r.unmodelled));
    cov.put("samples", r.samples);
    Map<String, Object> m = new LinkedHashMap<>();
    m.put("property", r.id);
    m.put("tier", tier);
    m.put("seed", seed);
    m.put("level", "other");
    m.put("coverage", cov);
    List<String> as = new ArrayList<>(r.assumptions);
    as.add("the JDK and log4j behave as documented; the abstract transfer functions in analyzer/src/sa/Lib.java describe them");
    as.add("user code (states, actions, listeners, handlers, contexts) reaches the library only through its public interfaces");
    m.put("assumptions", as);
    m.put("wall_s", Math.round(wall * 1000) / 1000.0);
    m.put("violations", r.violations.size());
    StringBuilder sb = new StringBuilder();
    write(sb, m, "");
    return sb.append('\n').toString();
  }
  private static void write(StringBuilder sb, Object o, String ind) {
    if (o instanceof Map) {
      sb.append('{');
      String sep = "\n";
      for (Map.Entry<?, ?> e : ((Map<?, ?>) o).entrySet()) {
        sb.append(sep).append(ind).append("  ");
        str(sb, String.valueOf(e.getKey()));
        sb.append(": ");
        write(sb, e.getValue(), ind + "  ");
        sep = ",\n";
      }
      sb.append('\n').append(ind).append('}');
    } else if (o instanceof List) {
      sb.append('[');
      String sep = "\n";
      for (Object x : (List<?>) o) {
        sb.append(sep).append(ind).append("  ");
        write(sb, x, ind + "  ");
        sep = ",\n";
      }
      sb.append(((List<?>) o).isEmpty() ? "]" : "\n" + ind + "]");
    } else if (o instanceof String) str(sb, (String) o);
    else sb.append(o);
  }
  private static void str(StringBuilder sb, String s) {
    sb.append('"');
    for (char c : s.toCharArray()) {
      if (c == '"' || c == '\\') sb.append('\\').append(c);
      else if (c == '\n') sb.append("\\n");
      else if (c < 32) sb.append(String.format("\\u%04x", (int) c));
      else sb.append(c);
    }
    sb.append('"');
  }
}
