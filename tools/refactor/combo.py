"""Runs every check on random combinations of the behaviour-preserving edits. Arguments: first seed, number of combinations, edits in each."""
import sys, os, shutil, subprocess, random, concurrent.futures as cf
argv, sys.argv = sys.argv, ["run.py", "none-of-them"]
import run
first, count, size = (list(map(int, argv[1:])) + [1, 40, 8][len(argv) - 1:])[:3]
def combo(seed):
    rnd = random.Random(seed)
    pool = [r for r in run.R if r[0] not in NOISY]
    rnd.shuffle(pool)
    files, names = {}, []
    for name, edits in pool:
        new = dict(files)
        ok = True
        for f, a, b in edits:
            if a is None: ok &= f not in new and not os.path.exists("/repo/" + f); new[f] = b; continue
            s = new.get(f) or open("/repo/" + f).read()
            if s.count(a) != 1: ok = False; break
            new[f] = s.replace(a, b)
        if ok: files = new; names.append(name)
        if len(names) == size: break
    def tree(fs):
        d = "/tmp/rf/combo%d" % seed
        shutil.rmtree(d, ignore_errors=True)
        shutil.copytree("/repo/src", d + "/src")
        for f, s in fs.items(): open(os.path.join(d, f), "w").write(s)
        return d
    d = tree(files)
    o = subprocess.run(["java", "-cp", run.B + ":%s/asm-9.7.1.jar:%s/asm-tree-9.7.1.jar" % (run.ASM, run.ASM), "-Dlibs=" + run.LIBS, "-Dsrc=" + d + "/src/main/java", "sa.Main", "check"] + run.ids, capture_output=True, text=True)
    shutil.rmtree(d, ignore_errors=True)
    out, cur = [], ""
    txt = o.stdout + o.stderr
    if "error:" in txt: return seed, names, None
    for l in txt.splitlines():
        if l.startswith("=="): cur = l.split()[1]; continue
        if any(k in l for k in run.KNOWN): continue
        if l.strip(): out.append(cur + " " + l.strip()[:260])
    return seed, names, out
NOISY = {"j6-actions-composed"}
with cf.ThreadPoolExecutor(6) as ex:
    bad = built = 0
    for seed, names, out in ex.map(combo, range(first, first + count)):
        if out is None: continue
        built += 1
        if out: bad += 1; print("%d: %s\n   %s" % (seed, " ".join(names), "\n   ".join(out[:6])), flush=True)
    print("%d combinations compile, %d not quiet" % (built, bad))
