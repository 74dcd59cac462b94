"""Runs the check of one property: prove, look for a failing input when a proof fails, report, write evidence."""
import os, sys, time, json, traceback, importlib, subprocess, shutil, tempfile, glob
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(ROOT, "cvv"), os.path.join(ROOT, "specs")]
sys.setrecursionlimit(20000)
import solve, z3
from engine import Structural, Engine, RoleMissing, PathEnd
from cast import TU, FrontError, REPO
import contract

SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick") or "quick"
if TIER not in ("quick", "thorough"): TIER = "quick"

# time: a unit that does not finish generating is not under contract on this tree; once something failed, the rest is cut short
import multiprocessing, engine
T0 = time.time(); FAILS = multiprocessing.Value("i", 0); UNIT0 = [T0]
LIM = 150 if TIER == "quick" else 900
def _stop(): t = time.time(); return t - UNIT0[0] > LIM or (FAILS.value > 0 and t - T0 > LIM)
def _late(): return FAILS.value > 0 and time.time() - T0 > 2 * LIM
engine.STOP = _stop; solve.LATE = _late

class Unit:
    """One function (or one lemma / harness over functions) verified against its contract."""
    def __init__(s, name, kind="contract"):
        s.name, s.kind = name, kind
        s.obls = 0; s.trivial = 0; s.failed = []; s.structural = None; s.by = {}; s.secs = 0.0; s.paths = 0
        s.inlined = []; s.vacuous = []; s.names = []; s.gen = 0.0

class Ctx:
    def __init__(s, pid):
        s.pid = pid
        s.units = []
        s.t0 = time.time()
        s.scratch = tempfile.mkdtemp(prefix=f"verif_{pid}_")
        s.bounded = []          # results of bounded stand-ins
        s.trusted = []
        s.assumptions = []
        s.known = []            # known findings seen
        s.notes = []
        s.repo_built = {}
        s.concretize = None
        s.timeout = 10 if TIER == "quick" else 40
    def close(s):
        shutil.rmtree(s.scratch, ignore_errors=True)

    # ---- proof units
    def finish(s, eng, u):
        u.gen = time.time() - u.t
        nq = solve.discharge(eng.obls, s.timeout)
        u.obls = len(eng.obls) + eng.trivial; u.trivial = eng.trivial; u.paths = eng.paths
        u.inlined = sorted(eng.inlined)
        for o in eng.obls:
            k = o.by if o.verdict == "proved" else "undischarged"
            u.by[k] = u.by.get(k, 0) + 1
            u.secs += o.secs
            if o.verdict != "proved": u.failed.append(o)
        if eng.trivial: u.by["constant evaluation in the generator"] = eng.trivial
        seen = {}
        for o in eng.obls: seen.setdefault(o.name, 0)
        u.names = sorted(seen)
        # vacuity: every named reachability point must be reachable on some path
        pts = solve.vacuity(eng.reach) if eng.reach else []
        by = {}
        for nm, v in pts: by.setdefault(nm, []).append(v)
        for nm, vs in by.items():
            if all(v == "unsat" for v in vs): u.vacuous.append(nm)
        u.secs_wall = time.time() - u.t
        if u.obls == 0: u.vacuous.append("no obligation generated")
        return u

    def prove_contract(s, mk, c):
        """mk() -> fresh Engine with contracts installed; c: the contract to verify"""
        u = Unit(c.name); u.t = time.time()
        s.units.append(u)
        def attempt(rolemap, depth):
            eng = mk(); eng.rolemap = dict(rolemap)
            try:
                contract.verify(eng, c)
            except RoleMissing as e:
                if depth >= 3: raise Structural(f"{c.name}: no variable for role {e.nm}")
                best = None
                for k, qt in e.cands:
                    if k in rolemap.values(): continue
                    try:
                        r = attempt({**rolemap, e.nm: k}, depth + 1)
                    except (Structural, AttributeError, z3.Z3Exception, TypeError): continue
                    if r is None: continue
                    solve.discharge(r.obls, 5)
                    if all(o.verdict == "proved" for o in r.obls): return r
                    best = None
                if best is None: raise Structural(f"{c.name}: local variable '{e.nm}' of the loop invariant not found")
                return best
            return eng
        try:
            eng = attempt({}, 0)
        except Structural as e:
            u.structural = str(e); u.secs_wall = time.time() - u.t; return u
        except (AttributeError, TypeError, z3.Z3Exception, KeyError, NotImplementedError) as e:
            u.structural = f"{type(e).__name__}: {e}"; u.secs_wall = time.time() - u.t; return u
        return s.finish(eng, u)

    def prove_harness(s, name, mk, run, variants=1):
        """run(ex): executes one path of a proof harness that calls the real code; obligations collected by ex.
        variants: the annotation can be placed in several ways (ex.eng.variant); one under which everything is proved suffices"""
        for k in range(1, variants):
            t = Ctx.__new__(Ctx); t.__dict__.update(s.__dict__); t.units = []
            if k == 1:
                t.prove_harness(name, mk, run); u0 = t.units[0]
                if not u0.failed and not u0.structural: break
                t.units = []
            def mkv(k=k): e = mk(); e.variant = k; return e
            t.prove_harness(name, mkv, run); u1 = t.units[0]
            if not u1.failed and not u1.structural and not u1.vacuous: s.units.append(u1); return u1
        if variants > 1: s.units.append(u0); return u0
        u = Unit(name, "harness"); u.t = time.time()
        s.units.append(u)
        def attempt(rolemap, depth):
            eng = mk(); eng.rolemap = dict(rolemap)
            try: eng.explore(run, name)
            except RoleMissing as e:
                # a local variable named by a loop invariant has another name here: try the other locals in its role
                for k, qt in (e.cands if depth < 2 else []):
                    if k in rolemap.values() or TU_isptr(qt): continue
                    try: r = attempt({**rolemap, e.nm: k}, depth + 1)
                    except (Structural, AttributeError, z3.Z3Exception, TypeError, KeyError): continue
                    solve.discharge(r.obls, 5)
                    if all(o.verdict == "proved" for o in r.obls): return r
                raise Structural(f"local variable '{e.nm}' of the loop invariant not found")
            return eng
        try:
            eng = attempt({}, 0)
        except Structural as e:
            u.structural = str(e); u.secs_wall = time.time() - u.t; return u
        except (AttributeError, TypeError, z3.Z3Exception, KeyError, NotImplementedError) as e:
            u.structural = f"{type(e).__name__}: {e}"; u.secs_wall = time.time() - u.t
            if os.environ.get("VERIF_DEBUG"): traceback.print_exc()
            return u
        return s.finish(eng, u)

    def prove_all(s, jobs, tmo=None):
        """jobs: [(name, fn)], fn(ctx) proves one or more units on the ctx it is given; run in parallel processes"""
        import multiprocessing as mp
        global _JOBS
        _JOBS = (s, jobs)
        solve.JOBS_SAVE = solve.JOBS
        n = min(int(os.environ.get("VERIF_JOBS", "8")), len(jobs))
        if n <= 1:
            for i in range(len(jobs)): s.units += _one(i)
            return
        with mp.get_context("fork").Pool(n) as pool:
            res = pool.map(_one, range(len(jobs)), chunksize=1)
        for r in res: s.units += r

    # ---- native code
    def cc(s, out, srcs, flags=(), san=True):
        exe = os.path.join(s.scratch, out)
        cmd = ["gcc", "-std=gnu99", "-g", "-O1", "-w", "-I", REPO, "-I", os.path.join(REPO, "src")]
        if san: cmd += ["-fsanitize=address", "-fno-omit-frame-pointer"]
        cmd += list(flags) + ["-o", exe] + list(srcs)
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode != 0: raise FrontError("native build failed: " + "\n".join([l for l in r.stderr.splitlines() if "error" in l or "undefined" in l][:20] or [r.stderr[-1500:]]))
        return exe
    def repo_lib(s, san=True, extra=()):
        """all of /repo/src except main.c as one archive, built in the scratch directory"""
        key = (san, tuple(extra))
        if key in s.repo_built: return s.repo_built[key]
        d = os.path.join(s.scratch, f"lib{len(s.repo_built)}"); os.makedirs(d)
        srcs = sorted(glob.glob(os.path.join(REPO, "src", "*", "*.c")))
        flags = ["-std=gnu99", "-g", "-O1", "-w"] + (["-fsanitize=address", "-fno-omit-frame-pointer"] if san else []) + list(extra)
        def one(src):
            o = os.path.join(d, os.path.relpath(src, REPO).replace("/", "_") + ".o")
            r = subprocess.run(["gcc", *flags, "-c", src, "-o", o], capture_output=True, text=True)
            if r.returncode: raise FrontError("native build failed: " + "\n".join([l for l in r.stderr.splitlines() if "error" in l or "undefined" in l][:20] or [r.stderr[-1500:]]))
            return o
        import concurrent.futures as cf
        with cf.ThreadPoolExecutor(8) as ex: objs = list(ex.map(one, srcs))
        lib = os.path.join(d, "libumlcc.a")
        subprocess.run(["ar", "rcs", lib, *objs], check=True)
        s.repo_built[key] = lib
        return lib
    def run(s, cmd, tmo=60, inp=None, cwd=None, mem_gb=None):
        env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:allocator_may_return_null=1", UBSAN_OPTIONS="halt_on_error=1")
        try:
            r = subprocess.run(cmd, capture_output=True, timeout=tmo, input=inp, cwd=cwd or s.scratch, env=env)
            return r.returncode, r.stdout.decode("latin-1"), r.stderr.decode("latin-1")
        except subprocess.TimeoutExpired as e:
            return "timeout", (e.stdout or b"").decode("latin-1"), (e.stderr or b"").decode("latin-1")

def TU_isptr(qt): return '*' in qt
_JOBS = None
class Failed:
    """a failed obligation, in a form that can cross a process boundary"""
    def __init__(s, o, case=None):
        s.name, s.func, s.where, s.verdict, s.by, s.secs = o.name, o.func, str(o.where), o.verdict, o.by, o.secs
        s.text = obl_text(o); s.case = case; s.extra = str(o.extra)
def _one(i):
    ctx, jobs = _JOBS
    ctx.units = []
    solve.JOBS = 2
    name, fn = jobs[i]
    UNIT0[0] = time.time()
    if _late():
        u = Unit(name); u.structural = "not tried: other obligations failed"; u.job = name; return [u]
    try: fn(ctx)
    except Structural as e:
        u = Unit(name); u.structural = str(e); ctx.units.append(u)
    for u in ctx.units:
        fs = []
        for k, o in enumerate(u.failed):
            case = None
            if ctx.concretize is not None and k < 6:
                try: case = ctx.concretize(o)
                except Exception as e:
                    if os.environ.get("VERIF_DEBUG"): traceback.print_exc()
            fs.append(Failed(o, case) if k < 12 else Failed0(o))
        u.failed = fs
        u.job = name
        if fs: FAILS.value += 1
    return ctx.units
class Failed0(Failed):
    def __init__(s, o):
        s.name, s.func, s.where, s.verdict, s.by, s.secs = o.name, o.func, str(o.where), o.verdict, o.by, o.secs
        s.text = f"obligation: {o.name} {o.where}"; s.case = None; s.extra = ""

def guarded(ctx, f, *a):
    """a native run that cannot be built or does not fit the source says nothing about the property"""
    try: return f(ctx, *a)
    except Exception as e:
        if os.environ.get("VERIF_DEBUG"): traceback.print_exc()
        ctx.notes.append(f"bounded run not possible on this tree: {type(e).__name__}: {e}")
        return None

def replay_file(pid, text):
    d = os.path.join(ROOT, "evidence", "replay"); os.makedirs(d, exist_ok=True)
    p = os.path.join(d, f"{pid}.txt")
    with open(p, "w") as f: f.write(text)
    return p

def obl_text(o):
    if hasattr(o, "text"): return o.text
    try: q = solve.smt2(o.hyps, o.goal)
    except Exception as e: q = str(e)
    return f"obligation: {o.name}\nfunction: {o.func}  at: {o.where}\nverdict: {o.verdict} ({o.by}, {o.secs:.1f} s)\nextra: {o.extra}\ngoal:\n{o.goal}\n\nSMT-LIB query (unsat expected):\n{q}\n"

def findings(ctx):
    """known findings of this property: the named input is compiled and run; what still fails is reported as known"""
    import re, e2e
    for l in open(os.path.join(ROOT, "known_findings.txt")):
        m = re.match(r"known: property=(\S+) input=(\S+) (.*)", l)
        if not m or m[1] != ctx.pid: continue
        src = open(os.path.join(ROOT, m[2])).read(); d = os.path.join(ctx.scratch, "kf_" + os.path.basename(m[2])); os.makedirs(d)
        r = e2e.compile_pair(d, e2e.build_umlcc(ctx), src)
        if r is None:
            r = e2e.run_pair(d, '#include <stdio.h>\n#include <unistd.h>\nlong u_run(void), r_run(void); int main(void) { alarm(5); int a = u_run(), b = r_run(); if (a != b) { printf("umlcc %d gcc %d\\n", a, b); return 1; } printf("same\\n"); return 0; }\n')
        if r is not None: ctx.known.append(f"input={m[2]} {m[3]}")
        else: ctx.notes.append(f"the known finding {m[2]} no longer fails")
def main(pid):
    t0 = time.time()
    try: os.remove(os.path.join(ROOT, "evidence", "replay", f"{pid}.txt"))
    except OSError: pass
    mod = importlib.import_module(pid)
    ctx = Ctx(pid)
    rc = 0; lines = []; viol = 0
    try:
        try: mod.prove(ctx)
        except (FrontError, Structural, AttributeError, TypeError, KeyError, IndexError, NotImplementedError, z3.Z3Exception) as e:
            if os.environ.get("VERIF_DEBUG"): traceback.print_exc()
            u = Unit("the whole property"); u.structural = f"{type(e).__name__}: {e}"; ctx.units.append(u)
        failed = [(u, o) for u in ctx.units for o in u.failed]
        struct = [u for u in ctx.units if u.structural]
        vac = [(u, v) for u in ctx.units for v in u.vacuous]
        found = None
        if failed or struct:
            found = guarded(ctx, mod.search, failed, struct) if hasattr(mod, "search") else None
            if struct:
                ctx.notes.append("not under contract on this tree (annotation does not fit the source), bounded stand-in used: " +
                                 "; ".join(f"{u.name}: {u.structural}" for u in struct))
        if found is None and hasattr(mod, "standin"):
            found = guarded(ctx, mod.standin)
        guarded(ctx, findings)
        if found is not None:
            txt = found if isinstance(found, str) else json.dumps(found, indent=1)
            txt += "\n\n" + "\n".join(obl_text(o)[:6000] for u, o in failed[:5])
            p = replay_file(pid, txt)
            lines.append(f"VIOLATION property={pid} replay={p}"); viol = 1; rc = 1
        elif failed:
            txt = "No failing input was found for the failed obligations below.\n\n" + "\n".join(obl_text(o) for u, o in failed[:8])
            p = replay_file(pid, txt)
            lines.append(f"VIOLATION property={pid} replay={p} no-failing-input-found"); viol = 1; rc = 1
        for k in ctx.known: lines.append(f"KNOWN-FINDING: property={pid} {k}")
        if vac and not failed and not struct:
            print("vacuous proof:", [(u.name, v) for u, v in vac]); rc = rc or 2
    except FrontError as e:
        print("cannot analyse the current source:", e); rc = 3
    except Exception:
        traceback.print_exc(); rc = 4
    finally:
        ctx.close()
    for l in lines: print(l)
    tot = sum(u.obls for u in ctx.units); ok = tot - sum(len(u.failed) for u in ctx.units)
    by = {}
    for u in ctx.units:
        for k, v in u.by.items(): by[k] = by.get(k, 0) + v
    level = getattr(mod, "LEVEL", "proof")
    ev = {"property": pid, "tier": TIER, "seed": SEED, "level": level,
          "coverage": {
              "obligations": tot, "discharged": ok,
              "checker_cmd": f"python3-vt /verif/check.py {pid}  (VCs from clang AST of /repo, solved by z3-new / cvc5)",
              "trusted_base": getattr(mod, "TRUSTED", []) + ctx.trusted,
              "functions_under_contract": [u.name for u in ctx.units if not u.structural],
              "functions_not_under_contract_on_this_tree": {u.name: u.structural for u in ctx.units if u.structural},
              "inlined_helpers": sorted({f for u in ctx.units for f in u.inlined} - {u.name for u in ctx.units}),
              "discharged_by": by, "solver_seconds": round(sum(u.secs for u in ctx.units), 2),
              "units": [{"name": u.name, "kind": u.kind, "obligations": u.obls, "failed": [o.name for o in u.failed][:20], "paths": u.paths} for u in ctx.units],
              "samples": [f"{u.name}: {n}" for u in ctx.units[:6] for n in u.names[:4]][:24],
              "bounded_standins": ctx.bounded, "notes": ctx.notes},
          "assumptions": getattr(mod, "ASSUMPTIONS", []) + ctx.assumptions, "wall_s": round(time.time() - t0, 2), "violations": viol}
    if level == "other": ev["coverage"]["explanation"] = getattr(mod, "EXPLANATION", "")
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", pid + ".json"), "w") as f: json.dump(ev, f, indent=1)
    print(f"{pid}: {len(ctx.units)} units, {ok}/{tot} obligations discharged, {len([u for u in ctx.units if u.structural])} structural, {time.time() - t0:.1f} s, exit {rc}")
    if os.environ.get("VERIF_DEBUG"):
        for u in ctx.units:
            print("  ", u.name, u.obls, "struct:" + u.structural if u.structural else "", "paths", u.paths, "gen %.1f wall %.1f" % (u.gen, getattr(u, "secs_wall", 0)))
            for o in u.failed[:10]: print("      FAILED", o.name, o.where, o.verdict, o.by, "%.1f" % o.secs, o.extra)
        print(ctx.bounded, ctx.notes)
    return rc
