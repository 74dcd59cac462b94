"""Discharge obligations: z3 (5.x), then cvc5, in parallel; vacuity checks."""
import z3, subprocess, os, tempfile, time, shutil, concurrent.futures as cf, hashlib

Z3 = shutil.which("z3-new") or "z3"
CVC5 = shutil.which("cvc5")
JOBS = int(os.environ.get("VERIF_JOBS", "8"))

def smt2(hyps, goal):
    s = z3.Solver()
    for h in hyps: s.add(h)
    if goal is not None: s.add(z3.Not(goal))
    return s.to_smt2()

def _run(cmd, text, tmo):
    t = time.time()
    try:
        r = subprocess.run(cmd, input=text, capture_output=True, text=True, timeout=tmo + 5)
        out = r.stdout.strip()
    except subprocess.TimeoutExpired:
        out = "timeout"
    first = out.split("\n")[0].strip() if out else "error"
    return first, out, time.time() - t

def solve_text(text, tmo, want_model=False):
    """-> (verdict, solver, secs)"""
    total = 0
    tries = [([Z3, "-in", f"-T:{max(1, int(tmo))}"], "z3"),
             ([CVC5, "--lang=smt2", f"--tlimit={int(tmo * 1000)}", "--full-saturate-quant", "-"], "cvc5"),
             ([Z3, "-in", f"-T:{max(1, int(tmo * 2))}", "smt.mbqi=false", "smt.random_seed=7"], "z3(no mbqi)"),
             ([Z3, "-in", f"-T:{max(1, int(tmo * 2))}", "smt.arith.solver=2", "smt.random_seed=3"], "z3(arith 2)")]
    sat = None
    for cmd, nm in tries:
        if cmd[0] is None: continue
        tx = text
        if nm == "cvc5": tx = "(set-logic ALL)\n" + text
        v, out, dt = _run(cmd, tx, tmo * 2)
        total += dt
        if v == "unsat": return "proved", nm, total
        if v == "sat": return "refuted", nm, total
    return "unknown", "all", total

EXPAND = None      # optional: formula -> formula with abstract function symbols replaced by their definitions

LATE = None        # set by the runner: true when failures are known and time is short
MAXBAD = 12        # obligations of one unit tried with every solver before the rest is left undischarged
def discharge(obls, tmo=10, log=None):
    """verdicts for obligations; identical queries are solved once"""
    groups = {}
    for o in obls: groups.setdefault(getattr(o, "path", None), []).append(o)
    left = []; batch = []
    for p, os_ in groups.items():
        (batch.append(os_) if p is not None and len(os_) > 3 else left.extend(os_))
    if batch:
        # all obligations of one path in one query: some obligation fails iff the disjunction is satisfiable
        bt = {}
        for os_ in batch:
            ids = {}
            common = os_[0].hyps
            dis = []
            for o in os_:
                extra = [h for h in o.hyps[len(common):]]
                dis.append(z3.And(*extra, z3.Not(o.goal)) if extra else z3.Not(o.goal))
            bt.setdefault(smt2(list(common) + [z3.Or(*dis)], None), []).append(os_)
        def bjob(t):
            v, out, dt = _run([Z3, "-in", f"-T:{max(1, int(tmo))}"], t, tmo)
            return t, v, dt
        with cf.ThreadPoolExecutor(JOBS) as ex:
            for t, v, dt in ex.map(bjob, list(bt)):
                for os_ in bt[t]:
                    for o in os_:
                        if v == "unsat": o.verdict, o.by, o.secs = "proved", "z3", dt / len(os_)
                        else: left.append(o)
    texts = {}
    for o in left:
        t = smt2(o.hyps, o.goal)
        texts.setdefault(t, []).append(o)
    nbad = [0]
    def job(t):
        if nbad[0] >= (MAXBAD if EXPAND is None else 10 * MAXBAD) or LATE is not None and LATE(): return t, ("unknown", "not tried after other failures", 0.0)
        r = solve_text(t, tmo)
        if r[0] != "proved": nbad[0] += 1
        return t, r
    with cf.ThreadPoolExecutor(JOBS) as ex:
        for t, (v, by, dt) in ex.map(job, list(texts)):
            for o in texts[t]:
                o.verdict, o.by, o.secs = v, by, dt
    bad = [o for o in obls if o.verdict != "proved"]
    if EXPAND is not None and bad:
        t2 = {}
        for o in bad:
            a, b = smt2(o.hyps, o.goal), smt2([EXPAND(h) for h in o.hyps], EXPAND(o.goal))
            if a != b: t2.setdefault(b, []).append(o)
        nb2 = [0]
        def job2(t):
            if nb2[0] >= MAXBAD or LATE is not None and LATE(): return t, ("unknown", "not tried after other failures", 0.0)
            r = solve_text(t, tmo)
            if r[0] != "proved": nb2[0] += 1
            return t, r
        with cf.ThreadPoolExecutor(JOBS) as ex:
            for t, (v, by, dt) in ex.map(job2, list(t2)):
                for o in t2[t]: o.verdict, o.by, o.secs = v, by + " (expanded)", o.secs + dt
    return len(texts)

def model(o, tmo=20):
    """a countermodel of a failed obligation, or None"""
    f = EXPAND or (lambda x: x)
    s = z3.Solver(); s.set("timeout", int(tmo * 1000))
    for h in o.hyps: s.add(f(h))
    s.add(z3.Not(f(o.goal)))
    return s.model() if s.check() == z3.sat else None

def vacuity(points, tmo=3):
    """A reachability point is vacuous when its hypotheses are refuted."""
    bad = []
    texts = {}
    for nm, hyps in points: texts.setdefault(smt2(hyps, None), nm)
    def job(t):
        v, out, dt = _run([Z3, "-in", f"-T:{tmo}"], t, tmo)
        return texts[t], v
    with cf.ThreadPoolExecutor(JOBS) as ex:
        return list(ex.map(job, list(texts)))
