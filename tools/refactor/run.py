"""Runs every check on each behaviour-preserving edit and reports whatever is not quiet and decided."""
import sys, os, shutil, fnmatch, subprocess, concurrent.futures as cf
sys.path.insert(0, os.path.dirname(__file__))
mods = [m for m in ("refs", "refs2", "refs3", "refs4", "refs5", "refs6", "refs7", "refs8", "refs9", "refs10") if os.path.exists(os.path.join(os.path.dirname(__file__), m + ".py"))]
R = []
for m in mods: R += __import__(m).R
sel = [a for a in sys.argv[1:] if not (a[0] == "C" and a[1:].isdigit())]
ids = [a for a in sys.argv[1:] if a[0] == "C" and a[1:].isdigit()] or ["C%02d" % i for i in range(1, 30)]
ASM = "/opt/veriftools/java/bytecode"
import tempfile, atexit
B = tempfile.mkdtemp()
shutil.copytree("/verif/build", B, dirs_exist_ok=True)  # later rebuilds do not disturb this run
atexit.register(shutil.rmtree, B, True)
LIBS = os.path.expanduser("~/.m2/repository/org/apache/logging/log4j/log4j-api/2.24.3/log4j-api-2.24.3.jar")
KNOWN = ("no event is processed before the initial entry", "the limit holds for any number of firing threads", "no two equal events ever wait", "[event in progress]")
def run(r):
    name, edits = r
    d = "/tmp/rf/" + name
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree("/repo/src", d + "/src")
    for f, a, b in edits:
        p = os.path.join(d, f)
        if a is None: open(p, "w").write(b); continue
        s = open(p).read()
        if s.count(a) != 1: return name, "EDIT DOES NOT APPLY (%d): %s" % (s.count(a), a[:80])
        open(p, "w").write(s.replace(a, b))
    o = subprocess.run(["java", "-cp", B + ":%s/asm-9.7.1.jar:%s/asm-tree-9.7.1.jar" % (ASM, ASM), "-Dlibs=" + LIBS, "-Dsrc=" + d + "/src/main/java", "sa.Main", "check"] + ids, capture_output=True, text=True)
    shutil.rmtree(d, ignore_errors=True)
    out, cur = [], ""
    for l in (o.stdout + o.stderr).splitlines():
        if l.startswith("=="): cur = l.split()[1]; continue
        if any(k in l for k in KNOWN): continue
        if l.strip(): out.append(cur + " " + l.strip()[:260])
    return name, "\n   ".join(out[:8]) if out else ""
with cf.ThreadPoolExecutor(6) as ex:
    bad = 0
    for name, out in ex.map(run, [r for r in R if not sel or any(fnmatch.fnmatch(r[0], g) for g in sel)]):
        if out: bad += 1; print(name + "\n   " + out)
    print("%d not quiet" % bad)
