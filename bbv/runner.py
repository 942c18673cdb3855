"""Explore every case of a property in parallel, replay counterexamples on the
real code, write evidence, decide the exit code."""
import argparse
import importlib
import json
import multiprocessing as mp
import os
import queue
import signal
import subprocess
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PYREAL = "/opt/venv/bin/python"
SLICE_S = 4.0


class Case:
    def __init__(self, harness, params=None, name=None, placeholder=True,
                 query_ms=20000, path_s=60, min_paths=1, need=()):
        self.harness = harness
        self.params = params or {}
        self.name = name or harness + "".join(
            ",%s=%s" % kv for kv in sorted(self.params.items()))
        self.placeholder = placeholder
        self.query_ms = query_ms
        self.path_s = path_s
        self.need = tuple(need)  # reachability notes that must be hit


def _alarm(sig, frm):
    from . import engine
    raise engine.PathTimeout()


def explore(mod, case, prefixes, seconds):
    """DFS from the given decision prefixes for some seconds."""
    from . import engine
    from . import term as T
    stats = engine.Stats()
    found = []
    incon = []
    stack = list(prefixes)
    t_end = time.time() + seconds
    func = getattr(mod, case.harness)
    signal.signal(signal.SIGALRM, _alarm)
    sample = None
    solver = engine.Solver(stats, case.query_ms)
    again = None        # a path to repeat, because the solver got stuck on it
    while again is not None or stack and time.time() < t_end and len(found) < 3:
        prefix, retry, again = (again, True, None) if again is not None else (stack.pop(), False, None)
        if T.table_size() > 400000:
            T.clear()
            solver = engine.Solver(stats, case.query_ms)
        path = engine.Path(prefix, stats, solver, case.placeholder)
        engine.ENG = path
        ctx = engine.SymCtx(path)
        stats.paths += 1
        cand = None
        try:
            signal.setitimer(signal.ITIMER_REAL, case.path_s)
            try:
                try:
                    func(ctx, **case.params)
                except Exception:
                    path.finish()   # a violated obligation explains it better
                    raise
                path.finish()
            finally:
                signal.setitimer(signal.ITIMER_REAL, 0)
            stats.completed += 1
            if sample is None and stats.completed % 7 == 1:
                try:
                    sample = path.assignment()
                except engine.EngineStop:
                    pass
        except engine.CheckFailed:
            cand = {"msg": path.failure[0], "inputs": path.failure[1]}
        except engine.Infeasible:
            stats.infeasible += 1
        except engine.Unsupported as e:
            stats.unsupported += 1
            incon.append("unsupported: %s" % e + _where())
        except engine.PathTimeout:
            # the query that was cut off left its assertions in the solver
            stuck = solver.busy and time.time() - solver.busy > case.path_s / 3
            stats.solver_s += time.time() - solver.busy if solver.busy else 0
            solver = engine.Solver(stats, case.query_ms)
            if stuck and not retry:
                again = prefix
                continue
            path.solver = solver
            try:
                cand = {"msg": "the code did not terminate within %ss"
                        % case.path_s, "inputs": path.assignment(),
                        "timeout": True}
            except engine.EngineStop:
                incon.append("path timeout")
        except RecursionError as e:
            incon.append("recursion")
        except Exception as e:
            try:
                cand = {"msg": "raised %s: %s" % (type(e).__name__, _str(e)),
                        "inputs": path.assignment(), "raised": True,
                        "trace": traceback.format_exc()[-3000:]}
            except engine.EngineStop:
                incon.append("raised %s" % _str(e))
        stats.max_depth = max(stats.max_depth, len(path.decisions))
        stack.extend(path.pending)
        if cand:
            found.append(cand)
        if len(incon) > 20:
            break
    engine.ENG = None
    return stats, found, incon, stack, sample


def _str(e):
    try:
        return str(e)[:300]
    except Exception:
        return "?"


def _where():
    tb = traceback.extract_tb(sys.exc_info()[2])
    for fr in reversed(tb):
        if "/bbv/" not in fr.filename:
            return " at %s:%d" % (fr.filename, fr.lineno)
    return ""


def worker(prop, tier, inq, outq):
    os.environ["VERIF_TIER"] = tier
    try:
        from . import shim
        shim.setup_path()
        shim.install()
        sys.setrecursionlimit(20000)
        mod = importlib.import_module("props." + prop.lower())
        cases = mod.cases(tier)
    except BaseException:
        outq.put(("fatal", None, traceback.format_exc()))
        return
    while True:
        job = inq.get()
        if job is None:
            return
        ci, prefixes = job
        try:
            outq.put(("done", ci, explore(mod, cases[ci], prefixes, SLICE_S)))
        except BaseException:
            outq.put(("fatal", ci, traceback.format_exc()))


def run_replay(rec, path, timeout):
    with open(path, "w") as f:
        json.dump(rec, f, indent=1, sort_keys=True)
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1")
    env.pop("PYTHONPATH", None)
    try:
        r = subprocess.run([PYREAL, os.path.join(VERIF, "bbv", "replay.py"), path],
                           capture_output=True, text=True, timeout=timeout, env=env,
                           cwd=VERIF)
    except subprocess.TimeoutExpired:
        return "timeout", ""
    return r.returncode, (r.stdout + r.stderr)[-3000:]


def known_findings():
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return json.load(f)["known"]


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--jobs", type=int, default=8)
    ap.add_argument("--case", help="only cases whose name contains this")
    ap.add_argument("--budget", type=float)
    ap.add_argument("--strict", action="store_true",
                    help="exit 2 unless the exploration was exhaustive")
    ap.add_argument("-v", action="store_true")
    args = ap.parse_args(argv)
    tier = args.tier
    prop = args.property
    os.environ["VERIF_TIER"] = tier
    seed = int(os.environ.get("VERIF_SEED", "1"))
    budget = args.budget or (500 if tier == "quick" else 3 * 3600)
    t0 = time.time()
    os.chdir(VERIF)
    if VERIF not in sys.path:
        sys.path.insert(0, VERIF)
    evdir = os.path.join(VERIF, "evidence")
    os.makedirs(evdir, exist_ok=True)
    for f in os.listdir(evdir):
        if f.startswith("replay_%s_" % prop):
            os.unlink(os.path.join(evdir, f))
    mod = importlib.import_module("props." + prop.lower())
    cases = mod.cases(tier)
    sel = [i for i, c in enumerate(cases)
           if not args.case or args.case in c.name]
    inq, outq = mp.Queue(), mp.Queue()
    procs = [mp.Process(target=worker, args=(prop, tier, inq, outq), daemon=True)
             for _ in range(args.jobs)]
    for p in procs:
        p.start()
    from . import engine
    total = {i: engine.Stats() for i in sel}
    frontier = {i: [] for i in sel}   # prefixes not handed out
    active = {i: 0 for i in sel}
    incon, samples = [], []
    violations, known, errors = [], [], []
    casetime = {i: 0.0 for i in sel}
    backlog = [(i, [([], None)]) for i in sel]
    inflight = 0
    fatal = None
    dead = set()

    def feed():
        nonlocal inflight
        while backlog and inflight < args.jobs + 2:
            i, pf = backlog.pop(0)
            if i in dead:
                continue
            inq.put((i, pf))
            inflight += 1
    feed()
    stop = False
    nrep = 0
    nerr = {}
    quiet_since = None
    kf = [k for k in known_findings() if k["property"] == prop]
    while inflight and not stop:
        try:
            kind, ci, payload = outq.get(timeout=5)
        except queue.Empty:
            if time.time() - t0 > budget + 60:
                incon.append("time budget exhausted (worker stuck)")
                break
            if not any(p.is_alive() for p in procs):
                fatal = "all workers died"
                break
            dp = [p for p in procs if not p.is_alive()]
            quiet_since = quiet_since or time.time()
            if dp and time.time() - quiet_since > 100:
                incon.append("a worker died")
                break
            continue
        quiet_since = None
        inflight -= 1
        if kind == "fatal":
            fatal = payload
            break
        st, found, inc, rest, sample = payload
        total[ci].merge(st)
        if sample and len(samples) < 12:
            samples.append({"case": cases[ci].name, "inputs": sample})
        incon.extend("%s: %s" % (cases[ci].name, x) for x in inc)
        for c in found:
            nrep += 1
            rec = dict(c, property=prop, harness=cases[ci].harness,
                       params=cases[ci].params, case=cases[ci].name)
            rp = os.path.join(evdir, "replay_%s_%d.json" % (prop, nrep))
            code, out = run_replay(rec, rp, 60 if not c.get("timeout") else 30)
            if code == 3 or (code == "timeout" and c.get("timeout")):
                k = [k for k in kf if k["case"] == rec["case"]
                     and k["inputs"] == rec["inputs"]
                     and k.get("msg", rec["msg"]) == rec["msg"]]
                if k:
                    known.append((k[0], rec))
                    dead.add(ci)
                else:
                    violations.append((rec, rp, out))
                    stop = True
            else:
                errors.append((rec, rp, code, out))
                nerr[ci] = nerr.get(ci, 0) + 1
                if nerr[ci] > 6:
                    dead.add(ci)
        if len(errors) > 60 or len(incon) > 400:
            stop = True
        if rest and ci not in dead:
            if time.time() - t0 > budget:
                incon.append("%s: time budget exhausted, %d prefixes left"
                             % (cases[ci].name, len(rest)))
                stop = True
            else:
                # spread shallow prefixes over the workers
                rest.sort(key=lambda r: len(r[0]))
                n = min(len(rest), args.jobs)
                for j in range(n):
                    backlog.append((ci, rest[j::n]))
        feed()
    for p in procs:
        p.terminate()
    wall = time.time() - t0
    allst = engine.Stats()
    for s in total.values():
        allst.merge(s)
    # vacuity guard: every case has completed paths and hits its landmarks
    if not violations and not fatal:
        for i in sel:
            c, s = cases[i], total[i]
            if i in dead:
                continue
            if s.completed == 0:
                incon.append("%s: vacuous (no completed path)" % c.name)
            for n in c.need:
                if not s.notes.get(n):
                    incon.append("%s: landmark %r never reached" % (c.name, n))
    info = getattr(mod, "INFO", {})
    cov = {
        "explanation": "symbolic execution of the real functions (Python source, or LLVM IR of the C++ source) with z3; "
        "each path's condition plus the negated property was decided by the "
        "solver. exhaustive=True means no decision prefix was left, so every "
        "value of the declared symbolic inputs inside the bounds is covered.",
        "functions_encoded": info.get("functions", []),
        "bounds": info.get("bounds", ""),
        "outside": info.get("outside", ""),
        "states": allst.completed,
        "transitions": allst.branches,
        "traces_validated_against_impl": nrep,
        "paths": allst.paths,
        "paths_infeasible": allst.infeasible,
        "assertions_evaluated": allst.asserts,
        "assertions_sent_to_solver": allst.decided_by_solver,
        "query_cache_hits": allst.cache_hits,
        "solver_queries": allst.queries,
        "solver_seconds": round(allst.solver_s, 2),
        "solver_unknown": allst.unknown,
        "max_decisions": allst.max_depth,
        "landmarks": allst.notes,
        "cases": {cases[i].name: {"paths": total[i].paths,
                                  "asserts": total[i].asserts,
                                  "queries": total[i].queries}
                  for i in sel},
        "exhaustive": not incon and not errors and not violations and not fatal,
        "inconclusive": incon[:40],
        "samples": samples[:12],
    }
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking",
          "coverage": cov, "assumptions": info.get("assumptions", []),
          "wall_s": round(wall, 2), "violations": len(violations)}
    with open(os.path.join(evdir, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    for k, rec in known:
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    print("%s: %d cases, %d paths, %d assertions, %d solver queries, %.1fs solver, "
          "%.1fs wall" % (prop, len(sel), allst.paths, allst.asserts, allst.queries,
                          allst.solver_s, wall))
    if args.v:
        for i in sel:
            s = total[i]
            print("   %-60s paths %6d  done %6d queries %7d solver %6.1f  %s" % (
                cases[i].name, s.paths, s.completed, s.queries, s.solver_s, s.notes))
    if violations:
        for rec, rp, out in violations:
            print("  case %s: %s\n  inputs %s" % (rec["case"], rec["msg"], rec["inputs"]))
            print("  replay on the real code: %s" % out.strip()[-700:])
            print("VIOLATION property=%s replay=%s" % (prop, rp))
        return 1
    if fatal:
        print("ERROR: " + fatal)
        return 2
    for rec, rp, code, out in errors[:5]:
        print("INCONCLUSIVE: counterexample did not reproduce (%s): case %s: %s\n%s\n%s\n%s"
              % (code, rec["case"], rec["msg"], rec["inputs"], rec.get("trace", ""), out))
    for x in incon[:20]:
        print("INCONCLUSIVE: " + x)
    if (errors or incon) and (args.strict or allst.completed == 0):
        return 2
    # 0: held on everything explored; what was not is in the evidence
    return 0
