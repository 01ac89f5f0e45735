"""Check driver: builds the resolved program from /repo's current tree, decides
one property with its rules, writes evidence, prints VIOLATION lines."""
import os, sys, time, json, traceback, multiprocessing as mp, re
from . import frontend, models, summaries, lin
from .engine import Engine, State, Incomplete, fmtloc, PathEnd, NeedSplit

HERE = frontend.HERE
JOBS = 8

class Broken(Exception):
    """the analysis itself cannot give an answer"""

class Finding:
    """one violated obligation"""
    def __init__(self, rule, where, kind, msg, loc, stack=(), trace=()):
        self.rule = rule; self.where = where; self.kind = kind; self.msg = msg; self.loc = loc
        self.stack = list(stack); self.trace = list(trace)
    def ident(self):
        m = re.sub(r"[#'][0-9]+|\('[a-z]+', \d+\)|\bg\d+\b|\d{4,}", "#", self.msg)
        return {"rule": self.rule, "entry": self.where, "kind": self.kind, "msg": m}
    def text(self):
        return "%s: [%s/%s] %s: %s" % (self.loc or "?", self.rule, self.where, self.kind, self.msg)
    def json(self):
        d = self.ident(); d.update(loc=self.loc, stack=self.stack, path=self.trace, message=self.msg)
        return d

# ---------------------------------------------------------------- engine entries
def configs(spec):
    un = spec.get("unroll", (0, 1, "0n", "1n", 2))
    return [dict(spec, unroll=u) for u in un]

def run_entry_once(mod, name, spec, budget):
    lin.reset()
    eng = Engine(mod)
    tabs = []
    if spec.get("alloc", True): tabs.append(models.ALLOC_HOOKS)
    for t in spec.get("summaries", ()): tabs.append(getattr(summaries, t))
    models.install(eng, *tabs)
    eng.strlen_strict = spec.get("strlen_strict", True)
    eng.fresh_globals = spec.get("fresh_globals", False)
    eng.join = spec.get("join", False); eng.concrete = spec.get("concrete", 0); eng.depth = spec.get("depth", 4); eng.mix = spec.get("mix", False)
    eng.report_asserts = spec.get("asserts", True)
    u = str(spec["unroll"])
    eng.unroll = int(u.rstrip("n")); eng.nl_aff = not u.endswith("n")
    eng.deadline = time.time() + budget
    eng.max_steps = spec.get("max_steps", eng.max_steps)
    eng.loop_log = []
    if spec.get("setup"): spec["setup"](eng)
    inc = None; paths = 0; leaks = []
    try:
        res = eng.run(State(), mod.funcs[name], [])
        paths = len(res)
        if spec.get("leaks", True):
            seen = set()
            for s, v in res:
                for k in s.ghost:
                    if isinstance(k, tuple) and k[0] == "leak" and k not in seen:
                        seen.add(k)
                        from .engine import Report
                        eng.reports.append(Report("leak", "object %s allocated inside a loop is neither freed nor reachable" % k[1], None, (name,), s.trace))
    except Incomplete as e:
        inc = str(e)
    except (RecursionError, MemoryError) as e:
        inc = "%s" % type(e).__name__
    reps = []
    for r in eng.reports:
        reps.append((r.kind, r.msg, fmtloc(r.loc), list(r.stack), ["%s %s" % (a, fmtcond(c)) for a, c in r.trace[-25:]]))
    return {"entry": name, "unroll": spec["unroll"], "incomplete": inc, "paths": paths, "steps": eng.steps,
            "reports": reps, "visited": sorted(set(f for f, b in eng.visited)), "blocks": len(eng.visited),
            "obligations": sum(eng.oblig.values()), "sites": len(eng.oblig),
            "checks": sorted(set(k[0][6:] for k in eng.oblig if k[0].startswith("check:"))),
            "loops": eng.stats.get("loops", 0), "alias_drop": eng.stats.get("alias_drop", 0)}

def fmtcond(c):
    try:
        k = c[0]
        if k == "ge": return "%r >= 0" % c[1]
        if k == "eq": return "%r == 0" % c[1]
        if k == "ne": return "%r != 0" % c[1]
        if k == "peq": return "%r == %r" % c[1:]
        if k == "pne": return "%r != %r" % c[1:]
        return "%s %s %s" % (fmtcond(c[1]), k, fmtcond(c[2]))
    except Exception: return repr(c)

_MOD = {}
def _work(job):
    key, name, spec, budget = job
    mod = _MOD[key]
    t = time.time()
    best = None
    tried = []
    for cfg in configs(spec):
        left = budget - (time.time() - t)
        if left < 5 and best is not None: break
        try:
            r = run_entry_once(mod, name, cfg, min(left, spec.get("per_config", 300)))
        except Exception as e:
            r = {"entry": name, "unroll": cfg["unroll"], "incomplete": "internal: " + "".join(traceback.format_exception_only(type(e), e)).strip() + " " + traceback.format_exc()[-400:],
                 "paths": 0, "steps": 0, "reports": [], "visited": [], "blocks": 0, "obligations": 0, "sites": 0, "checks": [], "loops": 0, "alias_drop": 0}
        r["time"] = time.time() - t
        tried.append((cfg["unroll"], r["incomplete"], len(r["reports"])))
        if r["incomplete"] is None and not r["reports"]:
            best = r; break
        rank = lambda x: (x["incomplete"] is not None, len(x["reports"]) == 0)
        if best is None or rank(r) < rank(best): best = r
    best["tried"] = tried
    return key, best

class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop = prop; self.tier = tier; self.seed = seed
        self.findings = []; self.rules = []; self.assumptions = []
        self.modules = {}; self.jobs = []
        self.cov = {"units": [], "entries": [], "functions": set(), "obligations": 0, "sites": 0, "blocks": 0,
                    "paths": 0, "loops": 0}
        self.mods = {}
    def module(self, extra=(), defines=(), **kw):
        key = repr((tuple(extra), tuple(defines), sorted(kw.items())))
        if key not in self.mods:
            try:
                self.mods[key] = frontend.build(extra, defines, **kw)
            except frontend.BuildError as e:
                raise Broken("build failed: %s" % e)
            _MOD[key] = self.mods[key][0]
            for u in self.mods[key][1]["units"]:
                if u not in self.cov["units"]: self.cov["units"].append(u)
        return key, self.mods[key][0]
    def lib(self, defines=()):
        return self.module((), defines)[1]
    def witness(self, file, entries=None, **spec):
        """queue all (or the named) W_ entries of a witness unit"""
        key, mod = self.module((file,), tuple(spec.get("defines", ())), exclude=tuple(spec.get("exclude", ())))
        names = sorted(n for n, f in mod.funcs.items() if n.startswith("W_") and not f.decl)
        pend = [n for n in names if n in entries] if entries is not None else names
        if entries is not None and set(entries) - set(names): raise Broken("witness entries missing: %s" % (set(entries) - set(names)))
        if not pend: raise Broken("no witness entries in %s" % file)
        for n in pend: self.jobs.append((key, n, spec, spec.get("budget", 300)))
    def entries(self, file, **spec):
        key, mod = self.module((file,), tuple(spec.get("defines", ())), exclude=tuple(spec.get("exclude", ())))
        return sorted(n for n, f in mod.funcs.items() if n.startswith("W_") and not f.decl)
    def run_jobs(self):
        if not self.jobs: return
        t0 = time.time()
        with mp.get_context("fork").Pool(min(JOBS, len(self.jobs))) as pool:
            results = []
            for key, r in pool.imap_unordered(_work, self.jobs):
                results.append(r)
        results.sort(key=lambda r: r["entry"])
        inc = []
        for r in results:
            self.cov["entries"].append({k: r[k] for k in ("entry", "paths", "steps", "obligations", "checks", "loops", "unroll", "tried")})
            self.cov["functions"].update(f for f in r["visited"] if not f.startswith("W_"))
            for k in ("obligations", "sites", "blocks", "paths", "loops"): self.cov[k] += r[k]
            for kind, msg, loc, stack, trace in r["reports"]:
                self.findings.append(Finding("contract", r["entry"], kind, msg, loc, stack, trace))
            if r["incomplete"]: inc.append("%s: %s" % (r["entry"], r["incomplete"]))
            elif r["paths"] == 0 and not r["reports"]:
                self.findings.append(Finding("contract", r["entry"], "never-completes", "no path through the operation completes", None))
        self.incomplete = inc
        self.jobs = []
    incomplete = []
    def rule(self, name, text, instances, floor, sites=()):
        self.rules.append({"rule": name, "text": text, "instances": instances, "floor": floor, "sample": list(sites)[:12]})
        if instances < floor:
            raise Broken("rule %s matched %d instances, expected at least %d" % (name, instances, floor))
    def fail(self, rule, where, kind, msg, loc=None, stack=()):
        self.findings.append(Finding(rule, where, kind, msg, loc, stack))

def load_known():
    p = os.path.join(HERE, "known_findings.json")
    return json.load(open(p)) if os.path.exists(p) else []

def main(registry, argv):
    prop = argv[1]
    tier = argv[2] if len(argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    ctx = Ctx(prop, tier, seed)
    spec = registry[prop]
    broken = None
    try:
        spec["run"](ctx)
        ctx.run_jobs()
    except Broken as e:
        broken = str(e)
    known = [k for k in load_known() if k.get("property") == prop and k.get("status") == "open"]
    viol = []; kn = []
    for f in ctx.findings:
        i = f.ident()
        hit = None
        for k in known:
            if all(i.get(a) == b for a, b in k["match"].items()): hit = k; break
        if hit: kn.append((hit, f))
        else: viol.append(f)
    seenk = set()
    for k, f in kn:
        if k["id"] not in seenk:
            seenk.add(k["id"]); print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    cov = {"explanation": spec["explanation"], "units": len(ctx.cov["units"]), "unit_list": ctx.cov["units"],
           "entries": ctx.cov["entries"], "functions_analysed": sorted(ctx.cov["functions"]),
           "n_functions": len(ctx.cov["functions"]), "obligations": ctx.cov["obligations"], "obligation_sites": ctx.cov["sites"],
           "basic_blocks": ctx.cov["blocks"], "paths": ctx.cov["paths"], "loops_solved": ctx.cov["loops"], "rules": ctx.rules}
    ev = {"property": prop, "tier": tier, "seed": seed, "level": spec.get("level", "other"), "coverage": cov,
          "wall_s": round(time.time() - t0, 2), "assumptions": spec.get("assumptions", []) + ctx.assumptions}
    ev["violations"] = len(viol)
    if viol: cov["violation_list"] = [f.json() for f in viol[:50]]
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, "evidence", prop + ".json"), "w"), indent=1, default=str)
    rep = os.path.join(HERE, "evidence", prop + ".violations.json")
    if viol:
        json.dump([f.json() for f in viol], open(rep, "w"), indent=1, default=str)
        for f in viol[:20]:
            print(f.text())
            if f.stack: print("    via " + " <- ".join(f.stack))
            for t in f.trace[-8:]: print("      when " + t)
        print("VIOLATION property=%s replay=%s" % (prop, rep))
        return 1
    if os.path.exists(rep): os.remove(rep)
    if broken:
        print("ANALYSIS-BROKEN property=%s %s" % (prop, broken)); return 2
    if ctx.incomplete:
        print("ANALYSIS-INCOMPLETE property=%s %s" % (prop, "; ".join(ctx.incomplete))); return 2
    print("OK property=%s entries=%d rules=%d obligations=%d functions=%d wall=%.1fs" % (
        prop, len(ctx.cov["entries"]), len(ctx.rules), ctx.cov["obligations"], len(ctx.cov["functions"]), time.time() - t0))
    return 0
