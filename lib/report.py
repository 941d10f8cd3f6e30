"""Outcome of a check: evidence file, replay report, exit status."""
import json, os, sys, time, traceback
import extract
from extract import AnalysisBroken

VERIF = extract.VERIF
KNOWN = os.path.join(VERIF, "known-findings.txt")

class Check:
    def __init__(self, pid, rule, level="other"):
        self.pid, self.rule, self.level = pid, rule, level
        self.t0 = time.time()
        self.viol = []          # (key, text)
        self.undecided = []
        self.counts = {}
        self.samples = []
        self.assume = []
        self.explain = ""
        self.known_hit = []
    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n
    def sample(self, s, cap=12):
        if len(self.samples) < cap and s not in self.samples: self.samples.append(s)
    def violation(self, key, text):
        """key: stable identity of the failing construct (no line numbers)"""
        if all(k != key or t != text for k, t in self.viol):
            self.viol.append((key, text))
    def undecide(self, text):
        if text not in self.undecided: self.undecided.append(text)
    def need(self, name, minimum):
        """anchor count confirmed by hand; falling below is a broken analysis"""
        if self.viol: return            # a violation ends the comparison it belongs to early
        if self.counts.get(name, 0) < minimum:
            raise AnalysisBroken("only %d %s found, expected at least %d: the analysed constructs have moved"
                                 % (self.counts.get(name, 0), name, minimum))
    def known(self):
        out = []
        if os.path.exists(KNOWN):
            for ln in open(KNOWN):
                ln = ln.strip()
                if ln.startswith("finding: property=%s " % self.pid):
                    body = ln[len("finding: property=%s " % self.pid):]
                    key, _, txt = body.partition(" :: ")
                    out.append((key.strip(), txt.strip()))
        return out
    def finish(self):
        kn = dict(self.known())
        real = []
        for k, t in self.viol:
            if k in kn:
                self.known_hit.append((k, kn[k]))
            else: real.append((k, t))
        ev = {"property": self.pid, "tier": os.environ.get("VERIF_TIER", "quick"),
              "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": self.level,
              "coverage": {"explanation": self.explain or self.rule, "rule": self.rule, "samples": self.samples},
              "assumptions": self.assume, "wall_s": round(time.time() - self.t0, 2), "violations": len(real)}
        if ev["tier"] not in ("quick", "thorough"): ev["tier"] = "quick"
        for k, v in sorted(self.counts.items()): ev["coverage"][k] = v
        ev["coverage"]["undecided"] = len(self.undecided)
        if self.undecided: ev["coverage"]["undecided_sites"] = self.undecided[:40]
        if self.known_hit: ev["coverage"]["known_findings"] = [k for k, _ in self.known_hit]
        d = os.path.join(VERIF, "evidence")
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        for k, t in self.known_hit:
            print("KNOWN-FINDING: property=%s %s %s" % (self.pid, k, t))
        print("%s: %s" % (self.pid, ", ".join("%s=%s" % kv for kv in sorted(self.counts.items()))),
              "undecided=%d" % len(self.undecided), "%.1fs" % (time.time() - self.t0))
        rep = os.path.join(d, self.pid + ".report.txt")
        if real:
            with open(rep, "w") as f:
                f.write("property %s\nrule: %s\nre-run: python3 /verif/run.py %s\n\n" % (self.pid, self.rule, self.pid))
                for k, t in real: f.write("- [%s]\n  %s\n" % (k, t))
            for k, t in real[:20]: print("  " + t)
            print("VIOLATION property=%s replay=%s" % (self.pid, rep))
            return 1
        if os.path.exists(rep): os.remove(rep)
        return 0

def parallel(C, tasks):
    """run analysis tasks in forked processes and merge what they report; a task gets its own Check"""
    import pickle
    todo = list(tasks); live = {}; results = {}
    n = max(1, min(8, os.cpu_count() or 1))
    sys.stdout.flush(); sys.stderr.flush()
    k = 0; bufs = {}
    import select
    while todo or live:
        while todo and len(live) < n:
            r, w = os.pipe(); t = todo.pop(0)
            pid = os.fork()
            if pid == 0:
                os.close(r)
                sub = Check(C.pid, C.rule, C.level); err = None
                try: t(sub)
                except AnalysisBroken as e: err = ("broken", str(e))
                except BaseException as e: err = ("error", traceback.format_exc())
                with os.fdopen(w, "wb") as f: pickle.dump((sub.counts, sub.samples, sub.undecided, sub.viol, err), f)
                os._exit(0)
            os.close(w); live[r] = (pid, k); bufs[r] = b""; k += 1
        rd, _, _ = select.select(list(live), [], [])
        for r in rd:
            d = os.read(r, 1 << 16)
            if d: bufs[r] += d; continue
            os.close(r); pid, i = live.pop(r); os.waitpid(pid, 0); results[i] = bufs.pop(r)
    for i in sorted(results):
        if not results[i]: raise AnalysisBroken("an analysis process ended without a result")
        counts, samples, und, viol, err = pickle.loads(results[i])
        if err and err[0] == "broken": raise AnalysisBroken(err[1])
        if err: sys.stderr.write(err[1]); raise AnalysisBroken("internal error in an analysis process")
        for a, b in counts.items(): C.count(a, b)
        for x in samples: C.sample(x, 60)
        for x in und: C.undecide(x)
        for a, b in viol: C.violation(a, b)

def main(fn):
    try:
        rc = fn()
    except AnalysisBroken as e:
        print("ANALYSIS-BROKEN: %s" % e); rc = 2
    except Exception:
        traceback.print_exc(); print("ANALYSIS-BROKEN: internal error"); rc = 2
    sys.stdout.flush()
    sys.exit(rc)
