from __future__ import annotations

import importlib
import json
import multiprocessing as mp
import os
import random
import signal
import subprocess
import sys
import time
import traceback
from dataclasses import dataclass, field
from fractions import Fraction

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


@dataclass
class Harness:
    name: str
    fn: object
    bounds: str
    budget_s: float = 20.0
    max_paths: int = 400
    solver_ms: int = 4000
    thorough: dict = field(default_factory=dict)  # overrides in the thorough tier
    witnesses: int = 6


def harness(bounds, **kw):
    def deco(fn):
        fn.__harness__ = Harness(name=kw.pop("name", fn.__name__), fn=fn, bounds=bounds, **kw)
        return fn

    return deco


def harnesses_of(mod):
    out = []
    for v in list(vars(mod).values()):
        h = getattr(v, "__harness__", None)
        if h is not None and h not in out:
            out.append(h)
    for h in getattr(mod, "HARNESSES", []):
        if h not in out:
            out.append(h)
    return out


class HarnessState:
    def __init__(self, h, tier, seed):
        from engine import sym as S

        self.h = h
        self.tier = tier
        self.stats = S.Stats()
        self.seed = seed
        self.rng = random.Random(seed)
        self.labels: dict[str, int] = {}
        self.discharged = 0
        self.undecided: dict[str, int] = {}
        self.candidates: list[dict] = []
        self.cand_by_label: dict[str, int] = {}
        self.witnesses: dict[str, int] = {}
        self.witness_inputs: list[dict] = []
        self.paths = 0
        self.partial_paths = 0
        self.infeasible = 0
        self.degraded: dict[str, int] = {}
        self.branches = 0
        self.checks_on_path = 0
        self.exhausted = False
        self.left = 0

    def count(self, label):
        self.labels[label] = self.labels.get(label, 0) + 1
        self.checks_on_path += 1

    def values(self, path, m):
        from engine import sym as S

        out = {}
        for n, (e, kind) in path.inputs.items():
            v = S.model_value(m, e)
            out[n] = bool(v) if kind == "bool" else int(v) if kind == "int" else float(v)
        return out

    def decide(self, path, neg, label, strong=None):
        import z3

        if path.replaying():
            return
        self.count(label)
        neg = z3.simplify(neg)
        if z3.is_false(neg):
            self.discharged += 1
            return
        r, m = path._check(neg)
        if r == z3.unsat:
            self.discharged += 1
            return
        if r == z3.sat:
            goal = neg
            if strong is not None:
                r2, m2 = path._check(strong)
                if r2 == z3.sat:
                    goal, m = strong, m2
            self.candidate(path, goal, label, "", m)
            return
        # undecided: look for a counterexample with some inputs pinned (not a proof when it fails)
        if self.cand_by_label.get(label, 0) < 3:
            for _ in range(3):
                pins = self._pins(path)
                if pins is None:
                    break
                r, m = path._check(*pins, strong if strong is not None else neg)
                if r == z3.sat:
                    self.candidate(path, z3.And(*pins, strong if strong is not None else neg), label, "", m)
                    return
        self.undecided[label] = self.undecided.get(label, 0) + 1

    def _pins(self, path):
        import z3

        from engine import sym as S

        reals = [(n, e) for n, (e, k) in path.inputs.items() if k == "real"]
        if not reals:
            return None
        r, m = path._check()
        if r != z3.sat:
            return None
        keep = 1 if len(reals) > 1 else 0
        self.rng.shuffle(reals)
        pins = []
        for n, e in reals[keep:]:
            pins.append(e == z3.RealVal(str(S.model_value(m, e))))
        return pins

    def candidate(self, path, goal, label, detail, model=None):
        import z3

        from engine import sym as S

        if path.replaying():
            return
        k = self.cand_by_label.get(label, 0)
        self.cand_by_label[label] = k + 1
        if k >= 4 or len(self.candidates) >= 40:
            return
        if model is None:
            r, model = path._check(*([goal] if goal is not None else []))
            if r != z3.sat:
                if r == z3.unknown:
                    self.undecided[label] = self.undecided.get(label, 0) + 1
                else:
                    self.cand_by_label[label] = k
                return
        alts = [self.values(path, model)]
        nice = self._nice(path, goal, model)
        if nice is not None:
            alts.insert(0, nice)
        self.candidates.append({"harness": self.h.name, "label": label, "detail": detail[:300], "inputs": alts[0], "alt": alts[1:]})

    def _nice(self, path, goal, m):
        """Round the model to short decimals, interior where possible, keeping it a counterexample."""
        import z3

        from engine import sym as S

        extra = [] if goal is None else [goal]
        deadline = time.monotonic() + 6
        for n, (e, kind) in path.inputs.items():
            if kind != "real":
                continue
            v = S.model_value(m, e)
            done = False
            for nd in (0, 1, 3, 6):
                if time.monotonic() > deadline:
                    break
                c = Fraction(round(v * 10**nd), 10**nd)
                cand = e == z3.RealVal(str(c))
                if c == v:
                    extra.append(cand)
                    done = True
                    break
                try:
                    r, m2 = path._check(*extra, cand, timeout_ms=1500)
                except S.EngineStop:
                    return None
                if r == z3.sat:
                    extra.append(cand)
                    m = m2
                    done = True
                    break
            if not done:
                extra.append(e == z3.RealVal(str(v))) if z3.is_rational_value(m.eval(e, True)) else None
        return self.values(path, m)


def _site(tb):
    """Does the traceback pass through the repository's code?  innermost such frame."""
    site = None
    for f in traceback.extract_tb(tb):
        if "/src/libecalc/" in f.filename or "/src/ecalc" in f.filename:
            site = f"{f.filename.split('/src/')[-1]}:{f.name}"
    return site


def explore(h: Harness, tier, seed) -> dict:
    import z3  # noqa: F401

    from engine import sym as S
    from engine.ctx import SymCtx

    conf = {"budget_s": h.budget_s, "max_paths": h.max_paths, "solver_ms": h.solver_ms}
    if tier == "thorough":
        conf = {"budget_s": h.budget_s * 6, "max_paths": h.max_paths * 20, "solver_ms": h.solver_ms * 3}
        conf.update(h.thorough)
    hs = HarnessState(h, tier, seed)
    funcs = Tracer()
    funcs.start()
    t0 = time.monotonic()
    work = [[]]
    deadline = t0 + conf["budget_s"]

    def on_alarm(*_):
        raise S.PathBudget()

    signal.signal(signal.SIGALRM, on_alarm)
    budget_cut = 0
    diverged = 0
    pops = 0
    while work and hs.paths < conf["max_paths"] and time.monotonic() < deadline and len(hs.candidates) < 12:
        # mostly depth-first; every fourth pop takes the shallowest pending prefix so that coverage is not one-sided
        pops += 1
        prefix = work.pop(0) if pops % 4 == 0 else work.pop()
        p = S.PathState(prefix, hs.stats, conf["solver_ms"], seed)
        p.deadline = deadline + 1.0
        S.CUR = p
        hs.checks_on_path = 0
        ctx = SymCtx(p, hs)
        ctx.thorough = tier == "thorough"
        ok = False
        try:
            signal.setitimer(signal.ITIMER_REAL, max(1.0, min(deadline + 2 - time.monotonic(), conf["budget_s"])))
            try:
                h.fn(ctx)
                ok = True
            finally:
                signal.setitimer(signal.ITIMER_REAL, 0)
        except S.PathInfeasible:
            hs.infeasible += 1
        except S.PathBudget:
            budget_cut += 1
        except S.PathDiverged:
            diverged += 1
        except Exception as e:  # noqa: BLE001
            site = _site(e.__traceback__)
            last = traceback.extract_tb(e.__traceback__)[-1]
            key = f"{type(e).__name__}: {str(e)[:120]} @ {site or last.filename + ':' + str(last.lineno)}"
            hs.degraded[key] = hs.degraded.get(key, 0) + 1
            if os.environ.get("VERIF_DEBUG"):
                traceback.print_exc()
            try:
                signal.setitimer(signal.ITIMER_REAL, 20)
                p.prefix = p.prefix[: len(p.decisions)]
                hs.candidate(p, None, f"exception {type(e).__name__}", key)
            except S.EngineStop:
                pass
            finally:
                signal.setitimer(signal.ITIMER_REAL, 0)
        if ok:
            hs.paths += 1
            hs.branches += len([d for d in p.decisions if d[0] != "c" and not d[1]])
            if p.partial:
                hs.partial_paths += 1
            if len(hs.witness_inputs) < h.witnesses or (hs.paths & (hs.paths - 1)) == 0 and len(hs.witness_inputs) < 3 * h.witnesses:
                try:
                    r, m = p._check(timeout_ms=2000)
                    if r == z3.sat:
                        hs.witness_inputs.append(hs.values(p, m))
                except S.EngineStop:
                    pass
        work.extend(p.alternatives)
    S.CUR = None
    funcs.stop()
    return {
        "harness": h.name,
        "bounds": h.bounds,
        "paths": hs.paths,
        "partial_paths": hs.partial_paths,
        "infeasible": hs.infeasible,
        "budget_cut": budget_cut,
        "diverged": diverged,
        "pending_prefixes": len(work),
        "exhausted": not work and budget_cut == 0 and diverged == 0,
        "branches": hs.branches,
        "queries": hs.stats.queries,
        "solver_s": round(hs.stats.solver_s, 3),
        "unknown_queries": hs.stats.unknown,
        "checks": hs.labels,
        "discharged": hs.discharged,
        "undecided": hs.undecided,
        "candidates": hs.candidates,
        "degraded": hs.degraded,
        "concretised": hs.stats.concretise_sites,
        "fallbacks": hs.stats.fallbacks,
        "witness_inputs": hs.witness_inputs,
        "functions": sorted(funcs.seen),
        "wall_s": round(time.monotonic() - t0, 2),
    }


class Tracer:
    def __init__(self):
        self.seen: set[str] = set()

    def start(self):
        m = sys.monitoring
        try:
            m.use_tool_id(4, "verif")
        except ValueError:
            return

        def on(code, off):
            fn = code.co_filename
            if "/src/libecalc/" in fn or "/src/ecalc" in fn:
                self.seen.add(f"{fn.split('/src/')[-1]}:{code.co_qualname}")
            return m.DISABLE

        m.register_callback(4, m.events.PY_START, on)
        m.set_events(4, m.events.PY_START)
        m.restart_events()

    def stop(self):
        m = sys.monitoring
        try:
            m.set_events(4, 0)
            m.free_tool_id(4)
        except ValueError:
            pass


# --------------------------------------------------------------------------------------
# worker / replay processes
# --------------------------------------------------------------------------------------
def _worker(modname, hname, tier, seed, conn):
    try:
        mod = importlib.import_module(modname)
        h = next(x for x in harnesses_of(mod) if x.name == hname)
        res = explore(h, tier, seed)
    except BaseException as e:  # noqa: BLE001
        res = {"harness": hname, "error": f"{type(e).__name__}: {e}", "trace": traceback.format_exc()[-1500:]}
    try:
        conn.send(res)
    finally:
        conn.close()
        os._exit(0)


def replay_one(mod, hname, inputs, tier, limit=60):
    from engine.ctx import ReplayCtx, ReplaySkip

    h = next(x for x in harnesses_of(mod) if x.name == hname)
    ctx = ReplayCtx(inputs)
    ctx.thorough = tier == "thorough"

    class Alarm(BaseException):
        pass

    def on(*_):
        raise Alarm()

    signal.signal(signal.SIGALRM, on)
    signal.setitimer(signal.ITIMER_REAL, limit)
    out = {"failures": [], "exception": None, "skip": False, "checks": 0}
    import warnings

    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            h.fn(ctx)
    except ReplaySkip:
        out["skip"] = True
    except Alarm:
        out["timeout"] = True
    except Exception as e:  # noqa: BLE001
        out["exception"] = {"type": type(e).__name__, "msg": str(e)[:400], "site": _site(e.__traceback__), "trace": traceback.format_exc()[-1500:]}
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    out["failures"] = [list(f) for f in ctx.failures]
    out["checks"] = ctx.checks
    return out


def replay_server(modname, tier):
    proto = os.fdopen(os.dup(1), "w", buffering=1)
    os.dup2(2, 1)
    mod = importlib.import_module(modname)
    proto.write("READY\n")
    for line in sys.stdin:
        req = json.loads(line)
        try:
            res = replay_one(mod, req["harness"], req["inputs"], tier)
        except BaseException as e:  # noqa: BLE001
            res = {"failures": [], "exception": {"type": type(e).__name__, "msg": str(e), "site": None}, "skip": False, "checks": 0}
        proto.write(json.dumps(res) + "\n")


class Replayer:
    def __init__(self, modname, tier):
        self.args = [sys.executable, os.path.join(VERIF, "run_check.py"), "--replay-server", modname, "--tier", tier]
        self.p = None

    def start(self):
        self.p = subprocess.Popen(self.args, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, cwd=VERIF)
        return self

    def _ready(self):
        while True:
            line = self.p.stdout.readline()
            if not line:
                return False
            if line.strip() == "READY":
                self.ready = True
                return True

    ready = False

    def run(self, harness, inputs):
        for attempt in range(2):
            if self.p is None or self.p.poll() is not None:
                self.ready = False
                self.start()
            if not self.ready and not self._ready():
                self.p = None
                continue
            try:
                self.p.stdin.write(json.dumps({"harness": harness, "inputs": inputs}) + "\n")
                self.p.stdin.flush()
                line = self.p.stdout.readline()
                if line:
                    return json.loads(line)
            except (BrokenPipeError, ValueError):
                pass
            self.p.kill()
            self.p = None
        return {"failures": [], "exception": {"type": "ReplayDied", "msg": "", "site": None}, "skip": False, "checks": 0}

    def close(self):
        if self.p is not None:
            try:
                self.p.kill()
                self.p.wait()
            except Exception:  # noqa: BLE001
                pass


def violating(res):
    """A replay result that shows the property broken on the real code."""
    if res["skip"]:
        return None
    if res["failures"]:
        return f"{res['failures'][0][0]}: {res['failures'][0][1]}"
    if res["exception"] and res["exception"].get("site"):
        e = res["exception"]
        return f"unexpected {e['type']} from {e['site']}: {e['msg'][:200]}"
    return None


def load_known(prop):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [f for f in json.load(open(p)).get("findings", []) if f.get("property") == prop and f.get("status") == "known"]


def run_check(prop, tier, seed, only=None, jobs=8, verbose=False) -> int:
    t0 = time.monotonic()
    modname = f"checks.{prop.lower()}"
    limit = 780 if tier == "quick" else 3400
    rep = Replayer(modname, tier).start()  # imports the unmodified code in parallel
    from engine import loader

    loader.install()
    results = []
    mod_error = None
    try:
        mod = importlib.import_module(modname)
        hs = harnesses_of(mod)
    except Exception:  # noqa: BLE001
        mod_error = traceback.format_exc()[-2000:]
        mod, hs = None, []
    if only:
        hs = [h for h in hs if only in h.name]
    ctxm = mp.get_context("fork")
    queue = sorted(hs, key=lambda h: -h.budget_s)
    running: list = []
    violations, knowns, inconclusive, witness_ok, witness_n = [], [], [], 0, 0
    known = load_known(prop)
    samples = []
    validated = 0

    def take(res):
        nonlocal witness_ok, witness_n
        results.append(res)
        for c in res.get("candidates", []):
            got = None
            for inp in [c["inputs"], *c["alt"]]:
                out = rep.run(res["harness"], inp)
                got = violating(out)
                if got:
                    rec = {**c, "inputs": inp, "observed": got, "tier": tier, "property": prop, "replay_result": out}
                    lab = out["failures"][0][0] if out["failures"] else c["label"]
                    kf = next((f for f in known if f["harness"] == res["harness"] and f["label"] == lab), None)
                    (knowns if kf else violations).append((rec, kf))
                    break
            if not got:
                inconclusive.append({**c, "replay": out})
        for w in res.get("witness_inputs", []):
            out = rep.run(res["harness"], w)
            got = violating(out)
            if got:
                # the solver proved this path: accept only a failure that survives a tiny perturbation (no rounding artefacts)
                rng = random.Random(seed)
                w2 = {k: v * (1 + 1e-7 * rng.uniform(0.5, 1)) if isinstance(v, float) else v for k, v in w.items()}
                if not violating(rep.run(res["harness"], w2)):
                    inconclusive.append({"harness": res["harness"], "label": "path witness (rounding)", "detail": got, "inputs": w, "replay": out})
                    witness_n += 1
                    continue
            if got:
                rec = {"harness": res["harness"], "label": "path witness", "inputs": w, "observed": got, "tier": tier, "property": prop, "replay_result": out}
                lab = out["failures"][0][0] if out["failures"] else ""
                kf = next((f for f in known if f["harness"] == res["harness"] and f["label"] == lab), None)
                (knowns if kf else violations).append((rec, kf))
            elif not out["skip"] and not out["exception"] and not out.get("timeout"):
                witness_ok += 1
                if len(samples) < 6:
                    samples.append({"harness": res["harness"], "inputs": w, "checks_passed": out["checks"]})
            witness_n += 1

    while queue or running:
        while queue and len(running) < jobs:
            h = queue.pop(0)
            a, b = ctxm.Pipe(duplex=False)
            pr = ctxm.Process(target=_worker, args=(modname, h.name, tier, seed, b))
            pr.start()
            b.close()
            running.append((pr, a, h, time.monotonic()))
        time.sleep(0.02)
        still = []
        for pr, a, h, ts in running:
            got = None
            try:
                if a.poll(0):
                    got = a.recv()
            except EOFError:
                got = {"harness": h.name, "error": "worker died"}
            if got is not None:
                pr.join(5)
                if pr.is_alive():
                    pr.kill()
                take(got)
            elif time.monotonic() - ts > (h.thorough.get("budget_s", h.budget_s * 6) if tier == "thorough" else h.budget_s) + 90 or time.monotonic() - t0 > limit:
                pr.kill()
                take({"harness": h.name, "error": "killed: over budget"})
            else:
                still.append((pr, a, h, ts))
        running = still
    rep.close()

    ev = build_evidence(prop, tier, seed, mod, results, violations, knowns, inconclusive, witness_ok, witness_n, samples, mod_error, time.monotonic() - t0)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    for r in results:
        if "error" in r:
            print(f"  {r['harness']}: ERROR {r['error']}")
            if verbose:
                print(r.get("trace"))
            continue
        print(
            f"  {r['harness']}: paths={r['paths']} (partial {r['partial_paths']}) exhausted={r['exhausted']} queries={r['queries']} "
            f"discharged={r['discharged']} undecided={sum(r['undecided'].values())} candidates={len(r['candidates'])} "
            f"degraded={sum(r['degraded'].values())} solver={r['solver_s']}s wall={r['wall_s']}s"
        )
        for k in ("checks", "undecided", "degraded", "concretised", "fallbacks") if verbose else ("undecided", "degraded"):
            if r[k]:
                print(f"      {k}: {r[k]}")
    if mod_error:
        print("  check module could not be loaded against this tree (inconclusive):")
        print(mod_error)
    if inconclusive:
        print(f"  {len(inconclusive)} solver models did not reproduce on the real code (not reported)")
        if verbose:
            for c in inconclusive[:10]:
                print("     ", c["harness"], c["label"], c["detail"], c["inputs"], str(c["replay"])[:300])
    print(f"  witnesses replayed on the unmodified code: {witness_ok}/{witness_n}")
    for rec, kf in {(k["label"]): (r, k) for r, k in knowns}.values():
        print(f"KNOWN-FINDING: property={prop} {kf['what']}")
    if violations:
        rec = violations[0][0]
        path = os.path.join(VERIF, "evidence", f"replay_{prop}.json")
        with open(path, "w") as f:
            json.dump({"property": prop, "tier": tier, "violations": [v[0] for v in violations[:10]]}, f, indent=1, default=str)
        for rec, _ in violations[:5]:
            print(f"  counterexample [{rec['harness']}] {rec['observed']}\n     inputs: {json.dumps(rec['inputs'])}")
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    print(f"OK property={prop} tier={tier} wall={time.monotonic() - t0:.1f}s")
    return 0


def build_evidence(prop, tier, seed, mod, results, violations, knowns, inconclusive, wok, wn, samples, mod_error, wall):
    good = [r for r in results if "error" not in r]
    funcs = sorted({f for r in good for f in r["functions"]})
    cov = {
        "states": sum(r["paths"] for r in good),
        "transitions": sum(r["branches"] for r in good),
        "traces_validated_against_impl": wok,
        "samples": samples[:6] or [{"note": "no witness replayed"}],
        "symbolic_paths": sum(r["paths"] for r in good),
        "exhaustive": bool(good) and all(r["exhausted"] and not r["partial_paths"] and not r["undecided"] and not r["degraded"] for r in good) and len(good) == len(results),
        "solver": "z3 (real arithmetic; nlsat fallback)",
        "queries_discharged": sum(r["queries"] for r in good),
        "assertions_proved_unsat": sum(r["discharged"] for r in good),
        "assertions_decided_without_solver": sum(sum(r["checks"].values()) for r in good) - sum(r["discharged"] for r in good) - sum(sum(r["undecided"].values()) for r in good),
        "assertions_undecided": {r["harness"]: r["undecided"] for r in good if r["undecided"]},
        "solver_seconds": round(sum(r["solver_s"] for r in good), 3),
        "functions_encoded": funcs,
        "functions_encoded_count": len(funcs),
        "bounds": {r["harness"]: r["bounds"] for r in good},
        "harnesses": [
            {k: r[k] for k in ("harness", "paths", "partial_paths", "infeasible", "pending_prefixes", "exhausted", "queries", "discharged", "solver_s", "wall_s", "checks", "degraded", "concretised", "fallbacks")}
            for r in good
        ],
        "harness_errors": [{"harness": r["harness"], "error": r["error"]} for r in results if "error" in r],
        "vacuous_harnesses": [r["harness"] for r in good if not r["paths"] or not r["checks"]],
        "witness_replays": {"attempted": wn, "agreed": wok},
        "unreproduced_models": [{k: c[k] for k in ("harness", "label", "detail", "inputs")} for c in inconclusive[:10]],
        "outside_the_claim": getattr(mod, "OUTSIDE", "") if mod else "check module not loadable",
    }
    if mod_error:
        cov["module_error"] = mod_error
    return {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "model_checking",
        "coverage": cov,
        "assumptions": list(getattr(mod, "ASSUMPTIONS", [])) if mod else [],
        "wall_s": round(wall, 2),
        "violations": len(violations),
    }
