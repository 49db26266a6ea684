package sa;

import java.io.*;
import java.net.URI;
import java.nio.file.*;
import java.util.*;
import java.util.stream.*;
import javax.tools.*;
import org.objectweb.asm.*;
import org.objectweb.asm.tree.*;

/** The program under analysis: /repo's current sources, type-checked and lowered by javac in memory. */
final class Prog {
  final Map<String, ClassNode> classes = new TreeMap<>();
  final Map<String, List<String>> subs = new HashMap<>();
  int methodCount;
  int fileCount;

  static final class CompileError extends RuntimeException {
    CompileError(String m) { super(m); }
  }

  static Prog load(Path src, String classpath) throws Exception {
    JavaCompiler jc = ToolProvider.getSystemJavaCompiler();
    DiagnosticCollector<JavaFileObject> diag = new DiagnosticCollector<>();
    Map<String, ByteArrayOutputStream> out = new TreeMap<>();
    Prog p = new Prog();
    try (StandardJavaFileManager std = jc.getStandardFileManager(diag, null, null);
        Stream<Path> walk = Files.walk(src)) {
      List<File> files = walk.filter(f -> f.toString().endsWith(".java"))
          .filter(f -> !f.endsWith("module-info.java"))
          .map(Path::toFile).sorted().collect(Collectors.toList());
      p.fileCount = files.size();
      JavaFileManager fm = new ForwardingJavaFileManager<StandardJavaFileManager>(std) {
        @Override public JavaFileObject getJavaFileForOutput(Location l, String name,
            JavaFileObject.Kind kind, FileObject sib) {
          return new SimpleJavaFileObject(URI.create("mem:///" + name.replace('.', '/') + ".class"), kind) {
            @Override public OutputStream openOutputStream() {
              ByteArrayOutputStream b = new ByteArrayOutputStream();
              out.put(name, b);
              return b;
            }
          };
        }
      };
      boolean ok = jc.getTask(new StringWriter(), fm, diag,
          List.of("-g", "-proc:none", "--release", "17", "-nowarn", "-classpath", classpath), null,
          std.getJavaFileObjectsFromFiles(files)).call();
      if (!ok) {
        throw new CompileError(diag.getDiagnostics().stream()
            .filter(d -> d.getKind() == Diagnostic.Kind.ERROR)
            .map(Object::toString).collect(Collectors.joining("\n")));
      }
    }
    for (ByteArrayOutputStream b : out.values()) {
      ClassNode cn = new ClassNode();
      new ClassReader(b.toByteArray()).accept(cn, ClassReader.SKIP_FRAMES);
      p.classes.put(cn.name, cn);
      for (FieldNode f : cn.fields) if ((f.access & (Opcodes.ACC_FINAL | Opcodes.ACC_STATIC)) == Opcodes.ACC_FINAL) St.FINALS.add(cn.name + "." + f.name);
      p.methodCount += cn.methods.size();
    }
    for (ClassNode cn : p.classes.values()) {
      p.subs.computeIfAbsent(cn.superName, k -> new ArrayList<>()).add(cn.name);
      for (String i : cn.interfaces) p.subs.computeIfAbsent(i, k -> new ArrayList<>()).add(cn.name);
    }
    return p;
  }

  boolean inApp(String cls) { return cls != null && classes.containsKey(cls); }

  ClassNode cls(String simple) {
    List<ClassNode> r = new ArrayList<>();
    for (ClassNode c : classes.values()) if (V.shortName(c.name).equals(simple)) r.add(c);
    if (r.size() != 1) throw new Missing("class " + simple + " (" + r.size() + " found)");
    return r.get(0);
  }

  /** An anchor of a rule is gone: the rule cannot be decided. */
  static final class Missing extends RuntimeException {
    Missing(String m) { super(m); }
  }

  static final class M {
    final ClassNode c;
    final MethodNode m;
    private CFG cfg;
    M(ClassNode c, MethodNode m) { this.c = c; this.m = m; }
    String id() { return V.shortName(c.name) + "." + m.name; }
    boolean isStatic() { return (m.access & Opcodes.ACC_STATIC) != 0; }
    boolean isAbstract() { return (m.access & (Opcodes.ACC_ABSTRACT | Opcodes.ACC_NATIVE)) != 0; }
    CFG cfg() { if (cfg == null) cfg = new CFG(m); return cfg; }
    @Override public String toString() { return c.name + "." + m.name + m.desc; }
  }

  private final Map<String, M> mcache = new HashMap<>();

  M declared(String cls, String name, String desc) {
    String k = cls + "." + name + desc;
    if (mcache.containsKey(k)) return mcache.get(k);
    M r = null;
    ClassNode c = classes.get(cls);
    if (c != null) {
      for (MethodNode m : c.methods) {
        if (m.name.equals(name) && (desc == null || m.desc.equals(desc))) { r = new M(c, m); break; }
      }
    }
    mcache.put(k, r);
    return r;
  }

  /** Resolves a method in a class, its superclasses and then default methods of its interfaces. */
  M resolve(String cls, String name, String desc) {
    for (String c = cls; c != null && classes.containsKey(c); c = classes.get(c).superName) {
      M m = declared(c, name, desc);
      if (m != null) return m;
    }
    Deque<String> q = new ArrayDeque<>();
    q.add(cls);
    while (!q.isEmpty()) {
      ClassNode c = classes.get(q.poll());
      if (c == null) continue;
      if (c.superName != null) q.add(c.superName);
      for (String i : c.interfaces) {
        M m = declared(i, name, desc);
        if (m != null && !m.isAbstract()) return m;
        q.add(i);
      }
    }
    return null;
  }

  M method(String simpleClass, String name, int nargs) {
    ClassNode c = cls(simpleClass);
    M found = null;
    for (MethodNode m : c.methods) {
      if (m.name.equals(name) && (m.access & (Opcodes.ACC_SYNTHETIC | Opcodes.ACC_BRIDGE)) == 0
          && (nargs < 0 || Type.getArgumentTypes(m.desc).length == nargs)) {
        if (found != null) throw new Missing("unique method " + simpleClass + "." + name + "/" + nargs);
        found = declared(c.name, m.name, m.desc);
      }
    }
    if (found == null) {
      if (c.superName != null && inApp(c.superName)) return method(V.shortName(c.superName), name, nargs);
      throw new Missing("method " + simpleClass + "." + name + "/" + nargs);
    }
    return found;
  }

  List<M> allMethods() {
    List<M> r = new ArrayList<>();
    for (ClassNode c : classes.values()) for (MethodNode m : c.methods) r.add(declared(c.name, m.name, m.desc));
    return r;
  }

  Set<String> allSubs(String c) {
    Set<String> r = new TreeSet<>();
    Deque<String> q = new ArrayDeque<>(List.of(c));
    while (!q.isEmpty()) for (String s : subs.getOrDefault(q.poll(), List.of())) if (r.add(s)) q.add(s);
    return r;
  }

  boolean isInterface(String c) {
    ClassNode n = classes.get(c);
    return n != null && (n.access & Opcodes.ACC_INTERFACE) != 0;
  }

  /** Topmost in-program type that declares this method: names an effect independently of the static receiver type. */
  String rootDeclarer(String cls, String name, String desc) {
    String best = null;
    Deque<String> q = new ArrayDeque<>(List.of(cls));
    Set<String> seen = new HashSet<>();
    String argd = desc.substring(0, desc.indexOf(')') + 1);
    List<String> cands = new ArrayList<>();
    while (!q.isEmpty()) {
      String c = q.poll();
      if (!seen.add(c) || !classes.containsKey(c)) continue;
      ClassNode n = classes.get(c);
      for (MethodNode m : n.methods) {
        if (m.name.equals(name) && (m.access & Opcodes.ACC_STATIC) == 0
            && Type.getArgumentTypes(m.desc).length == Type.getArgumentTypes(desc).length) {
          cands.add(c);
          break;
        }
      }
      if (n.superName != null) q.add(n.superName);
      q.addAll(n.interfaces);
    }
    for (String c : cands) if (isInterface(c)) best = c;
    if (best == null && !cands.isEmpty()) best = cands.get(cands.size() - 1);
    return best == null ? cls : best;
  }

  /** TRUE/FALSE when decidable, null when unknown. Types are internal names. */
  Boolean subtype(String t, String s) {
    if (t == null) return null;
    if (t.equals(s) || "java/lang/Object".equals(s)) return true;
    if (inApp(t)) {
      ClassNode n = classes.get(t);
      boolean unknown = false;
      List<String> ups = new ArrayList<>(n.interfaces);
      if (n.superName != null && !"java/lang/Object".equals(n.superName)) ups.add(n.superName);
      for (String u : ups) {
        Boolean b = subtype(u, s);
        if (b == null) unknown = true;
        else if (b) return true;
      }
      return unknown ? null : false;
    }
    if (t.startsWith("[") || s.startsWith("[")) return t.equals(s) ? true : (t.startsWith("[") && s.startsWith("[") ? null : false);
    if (inApp(s)) return false;
    try {
      Class<?> ct = Class.forName(t.replace('/', '.'), false, ClassLoader.getPlatformClassLoader());
      Class<?> cs = Class.forName(s.replace('/', '.'), false, ClassLoader.getPlatformClassLoader());
      return cs.isAssignableFrom(ct);
    } catch (Throwable e) {
      return null;
    }
  }

  /** Can some object be both a t and an s? false only when sure. */
  boolean compatible(String t, String s) {
    if (t == null || s == null) return true;
    Boolean a = subtype(t, s), b = subtype(s, t);
    if (a == null || b == null || a || b) return true;
    if (isFinal(t) || isFinal(s)) return false;
    boolean ti = isInterfaceAny(t), si = isInterfaceAny(s);
    return ti || si;
  }

  boolean isFinal(String t) {
    if (inApp(t)) return (classes.get(t).access & Opcodes.ACC_FINAL) != 0;
    try {
      return java.lang.reflect.Modifier.isFinal(
          Class.forName(t.replace('/', '.'), false, ClassLoader.getPlatformClassLoader()).getModifiers());
    } catch (Throwable e) { return false; }
  }

  boolean isInterfaceAny(String t) {
    if (inApp(t)) return isInterface(t);
    try {
      return Class.forName(t.replace('/', '.'), false, ClassLoader.getPlatformClassLoader()).isInterface();
    } catch (Throwable e) { return true; }
  }

  FieldNode field(String cls, String name) {
    for (String c = cls; c != null && classes.containsKey(c); c = classes.get(c).superName)
      for (FieldNode f : classes.get(c).fields) if (f.name.equals(name)) return f;
    return null;
  }
  String fieldOwner(String cls, String name) {
    for (String c = cls; c != null && classes.containsKey(c); c = classes.get(c).superName)
      for (FieldNode f : classes.get(c).fields) if (f.name.equals(name)) return c;
    return cls;
  }

  /** Instruction-level control-flow graph with natural loops (exception edges included). */
  static final class CFG {
    final AbstractInsnNode[] ins;
    final int n;
    final Map<AbstractInsnNode, Integer> idx = new IdentityHashMap<>();
    final int[] line;
    final Map<Integer, BitSet> loops = new TreeMap<>(); // header -> body

    CFG(MethodNode m) {
      ins = m.instructions.toArray();
      n = ins.length;
      line = new int[n];
      int cur = 0;
      for (int i = 0; i < n; i++) idx.put(ins[i], i);
      for (int i = 0; i < n; i++) {
        if (ins[i] instanceof LineNumberNode) cur = ((LineNumberNode) ins[i]).line;
        line[i] = cur;
      }
      List<List<Integer>> succ = new ArrayList<>(), pred = new ArrayList<>();
      for (int i = 0; i < n; i++) { succ.add(new ArrayList<>()); pred.add(new ArrayList<>()); }
      for (int i = 0; i < n; i++) {
        AbstractInsnNode in = ins[i];
        int op = in.getOpcode();
        boolean fall = true;
        if (in instanceof JumpInsnNode) {
          succ.get(i).add(idx.get(((JumpInsnNode) in).label));
          fall = op != Opcodes.GOTO;
        } else if (in instanceof TableSwitchInsnNode) {
          TableSwitchInsnNode t = (TableSwitchInsnNode) in;
          for (LabelNode l : t.labels) succ.get(i).add(idx.get(l));
          succ.get(i).add(idx.get(t.dflt));
          fall = false;
        } else if (in instanceof LookupSwitchInsnNode) {
          LookupSwitchInsnNode t = (LookupSwitchInsnNode) in;
          for (LabelNode l : t.labels) succ.get(i).add(idx.get(l));
          succ.get(i).add(idx.get(t.dflt));
          fall = false;
        } else if (op >= Opcodes.IRETURN && op <= Opcodes.RETURN || op == Opcodes.ATHROW) {
          fall = false;
        }
        if (fall && i + 1 < n) succ.get(i).add(i + 1);
      }
      if (m.tryCatchBlocks != null) {
        for (TryCatchBlockNode t : m.tryCatchBlocks) {
          int s = idx.get(t.start), e = idx.get(t.end), h = idx.get(t.handler);
          for (int i = s; i < e; i++) {
            int op = ins[i].getOpcode();
            if (op >= Opcodes.INVOKEVIRTUAL && op <= Opcodes.INVOKEDYNAMIC || op == Opcodes.ATHROW
                || op == Opcodes.GETFIELD || op == Opcodes.PUTFIELD || op == Opcodes.AALOAD
                || op == Opcodes.AASTORE || op == Opcodes.CHECKCAST || op == Opcodes.MONITORENTER)
              succ.get(i).add(h);
          }
        }
      }
      // dominators (iterative, reachable nodes only)
      if (n == 0) return;
      int[] order = new int[n];
      boolean[] seen = new boolean[n];
      List<Integer> rpo = new ArrayList<>();
      Deque<int[]> st = new ArrayDeque<>();
      st.push(new int[]{0, 0});
      seen[0] = true;
      while (!st.isEmpty()) {
        int[] f = st.peek();
        if (f[1] < succ.get(f[0]).size()) {
          int s = succ.get(f[0]).get(f[1]++);
          if (!seen[s]) { seen[s] = true; st.push(new int[]{s, 0}); }
        } else { rpo.add(f[0]); st.pop(); }
      }
      Collections.reverse(rpo);
      for (int i = 0; i < rpo.size(); i++) order[rpo.get(i)] = i;
      for (int i = 0; i < n; i++) if (seen[i]) for (int s : succ.get(i)) pred.get(s).add(i);
      int[] idom = new int[n];
      Arrays.fill(idom, -1);
      idom[0] = 0;
      boolean ch = true;
      while (ch) {
        ch = false;
        for (int b : rpo) {
          if (b == 0) continue;
          int nd = -1;
          for (int p : pred.get(b)) {
            if (idom[p] < 0) continue;
            if (nd < 0) nd = p;
            else {
              int x = p, y = nd;
              while (x != y) {
                while (order[x] > order[y]) x = idom[x];
                while (order[y] > order[x]) y = idom[y];
              }
              nd = x;
            }
          }
          if (nd != idom[b]) { idom[b] = nd; ch = true; }
        }
      }
      for (int i = 0; i < n; i++) {
        if (!seen[i]) continue;
        for (int h : succ.get(i)) {
          int d = i;
          while (d != h && d != 0) d = idom[d];
          if (d != h) continue;
          BitSet body = loops.computeIfAbsent(h, k -> new BitSet());
          body.set(h);
          Deque<Integer> q = new ArrayDeque<>();
          if (!body.get(i)) { body.set(i); q.add(i); }
          while (!q.isEmpty()) for (int p : pred.get(q.poll())) if (seen[p] && !body.get(p)) { body.set(p); q.add(p); }
        }
      }
    }
  }
}
