package sa;

import java.util.Set;

/** Runs the rules of one property. */
final class Checks {
  static void run(Prog p, Rep r) {
    do {
      r.begin();
      once(p, r);
    } while (r.again());
    r.end();
  }
  private static void once(Prog p, Rep r) {
    Engine base = new Engine(p);
    try {
      switch (r.id) {
        case "C01": new ChkMachine(p, r, base).c01(); break;
        case "C02": new ChkMachine(p, r, base).c02(); break;
        case "C03": new ChkMachine(p, r, base).c03(); break;
        case "C04": new ChkMachine(p, r, base).c04(); break;
        case "C05": new ChkMachine(p, r, base).c05(); break;
        case "C06": new ChkMachine(p, r, base).c06(); break;
        case "C07": new ChkStrategy(p, r, base).c07(); break;
        case "C08": new ChkStrategy(p, r, base).c08(); break;
        case "C09": new ChkStrategy(p, r, base).c09(); break;
        case "C10": new ChkStrategy(p, r, base).c10(); break;
        case "C11": new ChkStrategy(p, r, base).c11(); break;
        case "C12": new ChkStrategy(p, r, base).c12(); break;
        case "C13": new ChkStrategy(p, r, base).c13(); break;
        case "C20": new ChkMachine(p, r, base).c20(); break;
        case "C26": new ChkMachine(p, r, base).c26(); break;
        case "C27": new ChkStrategy(p, r, base).c27(); break;
        case "C28": new ChkStrategy(p, r, base).c28(); break;
        case "C16": new ChkMisc(p, r, base).c16(); break;
        case "C17": new ChkMisc(p, r, base).c17(); break;
        case "C18": new ChkMisc(p, r, base).c18(); break;
        case "C19": new ChkMisc(p, r, base).c19(); break;
        case "C24": new ChkMisc(p, r, base).c24(); break;
        case "C25": new ChkMisc(p, r, base).c25(); break;
        case "C29": new ChkMisc(p, r, base).c29(); break;
        case "C14": new ChkApp(p, r, base).c14(); break;
        case "C15": new ChkApp(p, r, base).c15(); break;
        case "C21": new ChkApp(p, r, base).c21(); break;
        case "C22": new ChkApp(p, r, base).c22(); break;
        case "C23": new ChkApp(p, r, base).c23(); break;
        default: throw new IllegalArgumentException("no rules for " + r.id);
      }
    } catch (World.Refused f) {
      // without an app none of the guarantees about apps holds
      if (Set.of("C21", "C22", "C23").contains(r.id)) r.bad("the app can be built", null, f.getMessage(), f.out.st, f.out.exc);
      else r.undecided("analysis", f.getMessage());
    } catch (ChkApp.Lacks l) {
      if (r.id.equals("C21")) r.bad("an app has every state of the life cycle", null, l.getMessage(), null, null);
      else r.undecided("analysis", l.getMessage());
    } catch (World.Undecided u) {
      r.undecided("analysis", u.getMessage());
    } catch (Engine.Budget b) {
      r.undecided("analysis", "path budget: " + b.getMessage());
    } catch (Prog.Missing m) {
      throw m;
    } catch (RuntimeException x) {
      // a construct the rules do not expect
      StackTraceElement at = x.getStackTrace().length == 0 ? null : x.getStackTrace()[0];
      r.undecided("analysis", "a rule failed on an unexpected form: " + x + " at " + at);
    }
  }
}
