"""Runs one property's obligations against /repo's current source and writes its evidence."""
import importlib, json, os, re, sys, time, traceback
from . import build, entry, spec
from .terms import *
from .engine import Program, Unsupported
from .spec import Run

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.environ.get("VERIF_EVID", os.path.join(HERE, "evidence"))

# Mathematical leaf functions that entry-point analyses treat as named, uninterpreted operations. Each has
# its own function-level obligations; a name that no longer exists is simply analysed in place.
CUTS = {
    "oraiswap_v3::math::types::sqrt_price::calculate_sqrt_price": "sqrt_price_at_tick",
    "oraiswap_v3::math::log::get_tick_at_sqrt_price": "tick_at_sqrt_price",
    "oraiswap_v3_wasm::types::sqrt_price::calculate_sqrt_price": "sqrt_price_at_tick",
    "oraiswap_v3_wasm::log::get_tick_at_sqrt_price": "tick_at_sqrt_price",
}


class K:
    """one check run: loads programs, memoises analyses, collects obligations"""

    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.dir = str(build.dump())
        self.progs, self.runs = {}, {}
        self.obs = []          # (key, ok, message, where)
        self.rules = []
        self.assumptions = []
        self.analysed = {}
        self.cur = ""

    def prog(self, crate="oraiswap_v3"):
        p = self.progs.get(crate)
        if p is None:
            p = self.progs[crate] = Program(os.path.join(self.dir, "probe" if crate == "verif_probe" else "", crate + ".json"))
            spec.register(p)
        return p

    # --- analyses
    def msg(self, entry_name, variant, cuts=(), models=None, prefix=""):
        key = ("msg", entry_name, variant, tuple(sorted(cuts)), prefix)
        r = self.runs.get(key)
        if r is None:
            cc = dict(CUTS)
            for c in cuts:
                cc[c] = c.split("::")[-1]
            p = self.prog()
            cc = p.resolve(cc)
            r = Run(p, entry.run_msg(p, entry_name, variant, cuts=cc, models=models, prefix=prefix), variant)
            self.runs[key] = r
            self.note(r)
        return r

    def execute(self, variant, cuts=(), prefix=""):
        return self.msg("contract::execute", variant, cuts, prefix=prefix)

    def query(self, variant, cuts=()):
        return self.msg("contract::query", variant, cuts)

    def fn(self, name, args=None, cuts=(), crate="oraiswap_v3", base=True, names=None, models=None):
        p = self.prog(crate)
        f = name if isinstance(name, dict) else p.fn(name)
        name = f["def"]
        cc = dict(CUTS) if base else {}
        for c in cuts:
            cc[c] = c.split("::")[-1]
        cc = p.resolve(cc)
        cc.pop(f["def"], None)
        r = Run(p, entry.run_fn(p, f, args, cuts=cc, names=names, models=models), name)
        self.note(r)
        return r

    def note(self, r):
        st = r.E.stats
        self.analysed[r.label] = {"functions": len(st["fns"]), "blocks": st["blocks"], "calls": st["calls"],
                                  "loops": len(r.E.loops), "opaque": sorted(st["opaque"])}

    def variants(self, ename="contract::execute"):
        p = self.prog()
        f = p.fn(ename)
        return [v["n"] for v in p.types[f["locals"][f["argc"]]]["v"]]

    # --- obligations
    def ob(self, key, ok, msg="", where=None):
        self.obs.append((key, bool(ok), msg, where))
        return bool(ok)

    def implied(self, key, a, b, msg="", where=None):
        ok = spec.implied(a, b)
        return self.ob(key, ok, msg if ok else "%s; reachable when %s" % (msg, show(AND(a, NOT(b)), 9)[:700]), where)

    def equiv(self, key, a, b, msg="", where=None, under=TRUE):
        ok = spec.equiv(a, b, under)
        if not ok:
            x, y = AND(under, a, NOT(b)), AND(under, b, NOT(a))
            if spec.feasible(x):
                msg += "; accepted but must not be when " + show(x, 9)[:500]
            if spec.feasible(y):
                msg += "; refused but must not be when " + show(y, 9)[:500]
        return self.ob(key, ok, msg, where)

    def same(self, key, S, got, want, msg="", where=None):
        why = []
        ok = spec.same(S, got, want, why)
        if not ok:
            msg += "".join("; at %s found %s, required %s" % (p or "value", show(a, 7)[:300], show(b, 7)[:300]) for p, a, b in why[:3])
        return self.ob(key, ok, msg, where)

    def rule(self, text):
        if text not in self.rules:
            self.rules.append(text)

    def assume(self, text):
        if text not in self.assumptions:
            self.assumptions.append(text)

    def group(self, name, fn, *a):
        """run one group of obligations; a construct outside the analysis is an undischarged obligation"""
        try:
            fn(*a)
        except build.BuildError:
            raise
        except Exception as e:
            if os.environ.get("VERIF_DEBUG"):
                traceback.print_exc()
            self.ob(name + "/analysable", False, "cannot establish: %s: %s" % (type(e).__name__, str(e)[:300]))


def known():
    p = os.path.join(HERE, "known_findings.txt")
    out = []
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)$", l.strip())
            if m:
                out.append(m.groups())
    return out


def main(argv):
    pid = argv[1]
    tier = "thorough" if "--thorough" in argv else os.environ.get("VERIF_TIER", "quick")
    t0 = time.time()
    from . import props
    fn = props.PROPS[pid]
    try:
        k = K(pid, tier)
    except build.BuildError as e:
        print("cannot build the analysed tree: %s" % str(e)[-1500:])
        return 2
    k.group(pid, fn, k)
    kn = {key: d for p, key, d in known() if p == pid}
    bad = [o for o in k.obs if not o[1]]
    new = [o for o in bad if o[0] not in kn]
    floor = props.FLOORS.get(pid, 1)
    if len(k.obs) < floor and not new:
        new.append(("coverage", False, "only %d obligations were generated, at least %d are required" % (len(k.obs), floor), None))
    n = len(k.obs)
    ev = {"property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "other",
          "coverage": {"explanation": "static gated value-flow analysis of the type-checked program (monomorphic MIR of /repo's current tree); "
                                      "%d obligations generated, %d discharged. Rules: %s" % (n, n - len(bad), " | ".join(k.rules)),
                       "obligations": n, "discharged": n - len(bad),
                       "obligation_keys": [o[0] for o in k.obs][:400],
                       "analysed": k.analysed, "repo_commit": build.head() if hasattr(build, "head") else ""},
          "assumptions": k.assumptions, "violations": [{"key": o[0], "detail": o[2][:1500], "where": o[3]} for o in bad],
          "wall_s": round(time.time() - t0, 2)}
    os.makedirs(EVID, exist_ok=True)
    with open(os.path.join(EVID, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    for o in bad:
        if o[0] in kn:
            print("KNOWN-FINDING: property=%s %s: %s" % (pid, o[0], kn[o[0]]))
    if new:
        rp = os.path.join(EVID, pid + ".violation.txt")
        with open(rp, "w") as f:
            f.write("replay: python3 %s %s\n" % (os.path.join(HERE, "check.py"), pid))
            for o in new:
                f.write("%s\n  where: %s\n  %s\n" % (o[0], o[3], o[2]))
        for o in new[:12]:
            print("violated obligation %s at %s: %s" % (o[0], o[3], o[2][:900]))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    print("%s: %d obligations discharged over %d analysed entry points/functions in %.1fs" % (pid, n, len(k.analysed), time.time() - t0))
    return 0
