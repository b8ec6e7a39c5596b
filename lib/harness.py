"""Common runner: obligations, known findings, evidence, exit codes."""
import json, os, re, sys, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "lib"))
import model
EVID = os.environ.get("VERIF_EVID") or os.path.join(VERIF, "evidence")
from model import AnalysisError
import gvn
from terms import *


class Check:
    def __init__(self, pid, tier):
        self.pid = pid
        self.tier = tier
        self.obs = []           # obligations
        self.assumptions = []
        self.rules = {}
        self._prog = None
        self.t0 = time.time()

    # -------------------------------------------------------- program
    @property
    def prog(self):
        if self._prog is None:
            self._prog = model.load()
        return self._prog

    # -------------------------------------------------------- obligations
    def rule(self, name, text):
        self.rules[name] = text

    def ok(self, rule, site, note=""):
        self.obs.append(dict(rule=rule, site=site, status="ok", note=note))

    def viol(self, rule, site, msg, key=None):
        self.obs.append(dict(rule=rule, site=site, status="violation", note=msg, key=key or "%s|%s" % (rule, site)))

    def und(self, rule, site, msg):
        self.obs.append(dict(rule=rule, site=site, status="undecided", note=msg))

    def same(self, rule, site, got, want, what="", assume=(), signed=False, big=False):
        """obligation: two value terms denote the same value"""
        if got is None or want is None:
            self.und(rule, site, "%s: value not found" % what)
            return None
        r, w = same(got, want, assume=assume, signed=signed, big=big)
        if r is None:
            self.und(rule, site, "%s: %s against %s" % (what, short(got), short(want)))
            return None
        if r:
            self.ok(rule, site, "%s: %s" % (what, short(got)))
            return True
        self.viol(rule, site, "%s: the code computes %s, required is %s (they differ e.g. %s)" % (what, short(got), short(want), wit(w)))
        return False

    def cond(self, rule, site, good, okmsg, badmsg):
        if good is None:
            self.und(rule, site, okmsg)
        elif good:
            self.ok(rule, site, okmsg)
        else:
            self.viol(rule, site, badmsg)
        return good

    def need(self, rule, n):
        """the instance count confirmed by hand; fewer means that the rule no
        longer sees its subject"""
        k = sum(1 for o in self.obs if o["rule"] == rule)
        if k < n and not any(o["status"] == "violation" for o in self.obs):
            raise AnalysisError("rule %s matched %d instances, expected at least %d" % (rule, k, n))

    # -------------------------------------------------------- numbering
    def gvn(self, fn, opaque=(), names=None, exact=False, **kw):
        g = gvn.GVN(self.prog, opaque=opaque, **kw)
        g.exact = exact
        g.run(fn, names=names)
        return g


def short(t, n=300):
    s = show(t) if isinstance(t, T) else str(t)
    s = re.sub(r"#\d+", "", s)
    return s if len(s) <= n else s[:n] + "..."


def wit(w):
    if not w:
        return ""
    va, vb, env = w
    e = ", ".join("%s=%s" % (short(mk("var", k), 60), v) for k, v in list(env.items())[:8])
    return "%s vs %s for %s" % (va, vb, e)


def load_known():
    out = []
    p = os.path.join(VERIF, "known_findings.jsonl")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l:
                out.append(json.loads(l))
    return out


def main(pid, runfn, title):
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    ck = Check(pid, tier)
    sys.setrecursionlimit(40000)
    try:
        runfn(ck)
    except AnalysisError as e:
        print("ANALYSIS-BROKEN property=%s %s" % (pid, e))
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    viol = [o for o in ck.obs if o["status"] == "violation"]
    und = [o for o in ck.obs if o["status"] == "undecided"]
    okc = [o for o in ck.obs if o["status"] == "ok"]
    known = [k for k in load_known() if k.get("property") == pid and k.get("status", "known") == "known"]
    new, seen = [], []
    for v in viol:
        k = next((k for k in known if k["key"] == v["key"]), None)
        (seen if k else new).append((v, k))
    os.makedirs(EVID, exist_ok=True)
    per = {}
    for o in ck.obs:
        d = per.setdefault(o["rule"], dict(ok=0, violation=0, undecided=0))
        d[o["status"]] += 1
    prog = ck._prog
    cov = dict(
        explanation=title + ". Deciding rules: " + "; ".join("%s: %s" % x for x in ck.rules.items()),
        instances_per_rule=per,
        obligations=len(ck.obs), discharged=len(okc),
        undecided=[dict(rule=o["rule"], site=o["site"], why=o["note"]) for o in und][:60],
        units_parsed=len(prog.units) if prog else 0,
        functions_resolved=len(prog.functions) if prog else 0,
        samples=[dict(rule=o["rule"], site=o["site"], fact=o["note"][:400]) for o in okc[::max(1, len(okc) // 12)]][:14],
    )
    ev = dict(property=pid, tier=tier, seed=seed, level="other", coverage=cov,
              assumptions=ck.assumptions, wall_s=round(time.time() - ck.t0, 2), violations=len(new))
    if viol:
        ev["coverage"]["violations_reported"] = [dict(rule=v["rule"], site=v["site"], what=v["note"]) for v in viol]
    with open(os.path.join(EVID, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for v, k in seen:
        print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    print("%s: %d obligations, %d hold, %d undecided, %d known, %d violated (%s, %.1fs)" % (
        pid, len(ck.obs), len(okc), len(und), len(seen), len(new), tier, time.time() - ck.t0))
    if os.environ.get("VERIF_DEBUG"):
        for o in ck.obs:
            print("  [%s] %s @ %s: %s" % (o["status"], o["rule"], o["site"], o["note"][:300]))
    if new:
        rp = os.path.join(EVID, "replay-%s.txt" % pid)
        with open(rp, "w") as f:
            for v, _ in new:
                f.write("property %s violated\nrule: %s (%s)\nat: %s\n%s\n\n" % (
                    pid, v["rule"], ck.rules.get(v["rule"], ""), v["site"], v["note"]))
        for v, _ in new:
            print("  %s @ %s: %s" % (v["rule"], v["site"], v["note"]))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    return 0
