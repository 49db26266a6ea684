"""Makes and validates planted bugs: each is a set of textual edits of /repo plus a behavioural demonstration."""
import os, subprocess, json, shutil, sys, re, threading, queue
OUT = "/tmp/sw/out"
KEEP = "/verif/seeded"
M = "src/main/java/com/webotech/statemachine/"
DEMO_SH = '''#!/bin/bash
# Run in /repo after a build: exit 0 when the property holds.
here=$(cd "$(dirname "$0")" && pwd)
export JAVA_HOME=${JAVA_HOME:-/usr/lib/jvm/java-17-openjdk-amd64}
cp="target/classes:$(find /root/.m2 -name 'log4j-api-*.jar' 2>/dev/null | sort | tail -1)"
out=$(mktemp -d) || exit 3
trap 'rm -rf "$out"' EXIT
javac -nowarn -Xlint:none -d "$out" -cp "$cp" "$here/Demo.java" || exit 3
timeout 120 java -cp "$out:$cp" @MAIN@
'''
PRE = '''%s
import java.util.*;
import java.util.concurrent.*;
import java.util.concurrent.atomic.*;
import java.util.function.*;
import com.webotech.statemachine.*;
import com.webotech.statemachine.api.*;
import com.webotech.statemachine.strategy.*;
import com.webotech.statemachine.strategy.EventProcessingStrategyFactory.Config;
import com.webotech.statemachine.service.*;
import com.webotech.statemachine.service.api.*;
import com.webotech.statemachine.util.*;

@SuppressWarnings({"unchecked", "rawtypes"})
public class Demo {
  static final ExecutorService EX = Executors.newSingleThreadExecutor(Demo::daemon);
  static Thread daemon(Runnable r) { Thread t = new Thread(r); t.setDaemon(true); return t; }
  static void drain() throws Exception { for (int i = 0; i < 4; i++) EX.submit(() -> { }).get(20, TimeUnit.SECONDS); }
  static void check(boolean ok, String what) { if (!ok) { System.out.println("BROKEN: " + what); System.exit(1); } }
  static <T> State<T, String> st(String n) { return new NamedState<>(n); }
  static StateEvent<String> ev(String n) { return new NamedStateEvent<>(n); }
  static Config<Object, String> conf() { return new Config<Object, String>().withExecutor(EX); }
  static GenericStateMachine<Object, String> machine(Config<Object, String> c) {
    return new GenericStateMachine.Builder<Object, String>().setContext("ctx").setEventProcessingStrategy(EventProcessingStrategyFactory.createDefaultStrategy(c)).build();
  }
  static GenericStateMachine<Object, String> dropping(Config<Object, String> c) {
    return new GenericStateMachine.Builder<Object, String>().setContext("ctx").setEventProcessingStrategy(EventProcessingStrategyFactory.createDropDuplicateStrategy(c)).build();
  }
  static class Flow implements UnexpectedFlowListener<Object, String> {
    final List<String> log = Collections.synchronizedList(new ArrayList<>());
    public void onExceptionDuringEventProcessing(StateEvent<String> e, StateMachine<Object, String> m, Thread t, Exception x) { log.add("exception " + e.getName() + " " + x); }
    public void onEventBeforeMachineStart(StateEvent<String> e, StateMachine<Object, String> m) { log.add("before " + e.getName()); }
    public void onEventAfterMachineEnd(StateEvent<String> e, StateMachine<Object, String> m) { log.add("after " + e.getName()); }
  }
  static class Log implements StateMachineListener<Object, String> {
    final List<String> log;
    Log(List<String> log) { this.log = log; }
    public void onStateChangeBegin(State<Object, String> f, StateEvent<String> e, State<Object, String> t) { log.add("begin " + f.getName() + " " + e.getName() + " " + t.getName()); }
    public void onStateChangeEnd(State<Object, String> f, StateEvent<String> e, State<Object, String> t) { log.add("end " + f.getName() + " " + e.getName() + " " + t.getName()); }
  }
  static <X extends Throwable> void sneaky(Throwable t) throws X { throw (X) t; }
%s
  public static void main(String[] a) throws Throwable {
%s
    System.out.println("holds");
    System.exit(0);
  }
}
'''
def demo(body, extra="", pkg=None):
    return (PRE % ("package %s;" % pkg if pkg else "", extra, body)), (pkg + ".Demo" if pkg else "Demo")

BUGS = {}
def bug(id, prop, edits, body, needs, breaks, extra="", pkg=None, refactor=False):
    BUGS[id] = (prop, edits, demo(body, extra, pkg), needs, breaks)

def apply(root, edits):
    for f, old, new in edits:
        p = os.path.join(root, M, f)
        s = open(p).read()
        if s.count(old) != 1: raise Exception("%s: %d matches of %r" % (f, s.count(old), old))
        open(p, "w").write(s.replace(old, new))

BUILD = "mvn -o -q -B -ntp -Dversions.skip=true -Denforcer.skip -DskipTests test-compile"
TEST = "mvn -o -B -ntp -Dversions.skip=true -Denforcer.skip -fae -Dmaven.test.failure.ignore=true -Dsurefire.rerunFailingTestsCount=0 '-Dtest=!StateMachineIntegrationTest' test"
def sh(cmd, cwd, t=900):
    env = dict(os.environ, PATH="/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin", JAVA_HOME="/usr/lib/jvm/java-17-openjdk-amd64")
    r = subprocess.run(cmd, shell=True, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=t, text=True)
    return r.returncode, r.stdout

def emit(id):
    prop, edits, (java, main), needs, breaks = BUGS[id]
    d = os.path.join(OUT, id)
    os.makedirs(d, exist_ok=True)
    w = "/tmp/sw/%s" % id
    os.makedirs("/tmp/sw", exist_ok=True)
    if os.path.exists(w): shutil.rmtree(w)
    shutil.copytree("/repo", w, symlinks=True)
    apply(w, edits)
    rc, diff = sh("git diff", w)
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/Demo.java", "w").write(java)
    open(d + "/demo.sh", "w").write(DEMO_SH.replace("@MAIN@", main))
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    return w

BASE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"]) if isinstance(json.load(open("/opt/vp/BASELINE.json")).get("stable"), list) else None
def results(w):
    import xml.etree.ElementTree as ET, glob
    ok, bad = set(), set()
    for f in glob.glob(w + "/target/surefire-reports/TEST-*.xml"):
        for c in ET.parse(f).getroot().iter("testcase"):
            n = c.get("classname") + "#" + c.get("name")
            (bad if any(x.tag in ("failure", "error") for x in c) else ok).add(n)
    return ok, bad

def validate(id, tests=True):
    w = emit(id)
    d = os.path.join(OUT, id)
    msg = []
    try:
        rc, o = sh("bash %s/demo.sh" % d, "/repo", 300)
        if rc != 0: msg.append("demo fails unpatched (%d): %s" % (rc, o[-600:]))
        rc, o = sh(BUILD, w)
        if rc != 0: return ["does not build: " + o[-1500:]]
        rc, o = sh("bash %s/demo.sh" % d, w, 300)
        if rc in (0, 3): msg.append("demo does not fail with the patch (%d) %s" % (rc, o[-600:]))
        else: print("   ", id, o.strip()[-200:])
        if tests:
            for attempt in range(3):
                sh("rm -rf %s/target/surefire-reports" % w, w)
                rc, o = sh(TEST, w)
                ok, bad = results(w)
                if not bad and len(ok) >= 68: break
            if bad or len(ok) < 68: msg.append("tests: %d pass, failing %s" % (len(ok), sorted(bad)))
    except Exception as e:
        msg.append("ERR %s" % e)
    finally:
        shutil.rmtree(w, ignore_errors=True)
    return msg

def main():
    ids = sys.argv[1:] or list(BUGS)
    q = queue.Queue()
    for i in ids: q.put(i)
    def work():
        while True:
            try: i = q.get_nowait()
            except queue.Empty: return
            m = validate(i)
            if os.path.exists(KEEP + "/" + i): shutil.rmtree(KEEP + "/" + i)
            if not m: shutil.copytree(OUT + "/" + i, KEEP + "/" + i)
            print(i, "OK" if not m else "NOT OK: " + "; ".join(m), flush=True)
    ts = [threading.Thread(target=work) for _ in range(5)]
    [t.start() for t in ts]; [t.join() for t in ts]
