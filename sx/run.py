"""Driver: python -m sx.run C06 [--tier quick|thorough] [--only SUBSTR] [--list] [-j N]"""
import argparse
import decimal
import hashlib
import importlib
import json
import os
import pickle
import random
import select
import signal
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.dont_write_bytecode = True
sys.path[:0] = [REPO, HERE]
sys.setrecursionlimit(20000)

import sx  # noqa: E402,F401  (z3 on the path)
from sx import api, core, loader, wire  # noqa: E402

PY = sys.executable
EXCLUDE = ("eth_utils.pydantic",)


def load_prop(pid, symbolic):
    """Import the harness module of a property (instrumented when symbolic)."""
    name = "props." + pid.lower()
    if symbolic:
        opts = prop_options(pid)
        prefixes = ["eth_abi", "eth_utils", "props"] + list(opts.get("instrument", ()))
        loader.install(prefixes, EXCLUDE)
        for nm, path in opts.get("shims", {}).items():
            loader._SHIMS[nm] = importlib.import_module(path)
    else:
        opts = prop_options(pid)
        for nm, path in opts.get("shims", {}).items():
            m = importlib.import_module(path)
            sys.modules[nm] = m
    m = importlib.import_module(name)
    return m


def prop_options(pid):
    p = os.path.join(HERE, "props", "options.json")
    try:
        with open(p) as f:
            return json.load(f).get(pid, {})
    except FileNotFoundError:
        return {}


class Functions:
    """Which functions of the code under test were executed (sys.monitoring)."""

    def __init__(self):
        self.names = set()
        self.prefix = os.path.join(os.path.realpath(REPO), "eth_abi") + os.sep
        mon = sys.monitoring
        self.tool = mon.COVERAGE_ID
        try:
            mon.use_tool_id(self.tool, "sx")
        except ValueError:
            return
        mon.register_callback(self.tool, mon.events.PY_START, self._start)
        mon.set_events(self.tool, mon.events.PY_START)

    def _start(self, code, off):
        if os is None:
            return None
        fn = code.co_filename
        if fn.startswith(self.prefix) or os.path.realpath(fn).startswith(self.prefix):
            self.names.add("%s:%s" % (os.path.relpath(os.path.realpath(fn), os.path.realpath(REPO)),
                                      code.co_qualname))
        return sys.monitoring.DISABLE


G = {}


def _alarm(sig, frame):
    raise core.Budget("time budget")


def run_case(idx):
    case = G["cases"][idx]
    heap = G["heap"]
    tier, seed = G["tier"], G["seed"]
    t0 = time.time()
    deadline = min(t0 + case.budget * G["scale"], G["deadline"])
    res = dict(case=case.name, idx=idx, violations=[], inconclusive=[], known={}, samples=[],
               covers={}, missing=[], error=None)
    if t0 >= G["deadline"]:
        res.update(inconclusive=["time budget of the check"], stats={}, cuts={}, conc={},
                   wall=0.0, exhausted=False, functions=[])
        return res
    eng = core.Engine(deadline=deadline, query_timeout_ms=G["qt"],
                      max_paths=case.max_paths or 200000)
    core.set_engine(eng)
    ctx = api.make_symbolic_ctx(eng, G["known"])
    rnd = random.Random("%s/%s" % (seed, case.name))
    fns = G["functions"]
    keep = 3
    done = [0]
    base_ctx = decimal.getcontext().copy()

    def before():
        decimal.setcontext(base_ctx.copy())
        heap.restore()
        ctx.reset()

    def body():
        case.fn(ctx, *case.args, **case.kw)

    def on_path():
        from sx.values import ev
        done[0] += 1
        k = None
        if len(res["samples"]) < keep:
            k = len(res["samples"])
            res["samples"].append(None)
        else:
            j = rnd.randrange(done[0])
            if j < keep:
                k = j
        if k is not None:
            m = eng.sample()
            if m is None:
                return
            res["samples"][k] = dict(
                inputs={n: wire.enc(v) for n, v in eng.extract(m).items()},
                observed=[[n, wire.enc(ev(m, v))] for n, v in ctx.observed])

    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, max(1.0, deadline - time.time() + 10))
    exhausted = False
    try:
        exhausted = eng.explore(body, on_path=on_path, before=before)
    except core.Budget:
        eng.inconclusive.append("time budget")
    except BaseException as e:  # engine or harness error
        if isinstance(e, KeyboardInterrupt):
            raise
        res["error"] = "".join(traceback.format_exception(e))[-4000:]
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        core.set_engine(None)
        decimal.setcontext(base_ctx)
        heap.restore()
    for v in eng.violations:
        res["violations"].append(dict(what=v["what"],
                                      inputs={n: wire.enc(x) for n, x in v["inputs"].items()}))
    for fid, h in eng.notes.items():
        res["known"][fid] = dict(what=h["what"],
                                 inputs={n: wire.enc(x) for n, x in h["inputs"].items()})
    for c in case.covers:
        if c not in eng.covers and not eng.violations and exhausted:
            res["missing"].append(c)
    if exhausted and not done[0] and not eng.violations:
        eng.inconclusive.append("no feasible path")
    eng.stats["validated"] = 0
    res["samples"] = [s for s in res["samples"] if s]
    res.update(stats=eng.stats, cuts=eng.cuts, conc=eng.conc_sites,
               inconclusive=eng.inconclusive, covers=eng.covers, wall=time.time() - t0,
               exhausted=bool(exhausted), functions=sorted(fns.names))
    return res


def failed(idx, why, t0):
    return dict(case=G["cases"][idx].name, idx=idx, violations=[], inconclusive=[why], known={},
                samples=[], covers={}, missing=[], error=None, stats={}, cuts={}, conc={},
                wall=time.time() - t0, exhausted=False, functions=[])


def parallel(order, j):
    """Results of the cases, each run in a forked child of its own, j at a time."""
    todo = list(order)
    live = {}
    try:
        while todo or live:
            while todo and len(live) < j:
                idx = todo.pop(0)
                r, w = os.pipe()
                pid = os.fork()
                if pid == 0:
                    code = 0
                    try:
                        os.close(r)
                        data = pickle.dumps(run_case(idx))
                        with os.fdopen(w, "wb") as f:
                            f.write(data)
                    except BaseException:
                        traceback.print_exc()
                        code = 3
                    os._exit(code)
                os.close(w)
                live[r] = [pid, idx, [], time.time()]
            now = time.time()
            ready, _, _ = select.select(list(live), [], [], 5.0)
            for fd in list(live):
                pid, idx, buf, t0 = live[fd]
                why = None
                if fd in ready:
                    part = os.read(fd, 1 << 20)
                    if part:
                        buf.append(part)
                        continue
                    why = "the process of the case died"
                else:
                    late = min(t0 + G["cases"][idx].budget * G["scale"], G["deadline"]) + 40
                    if now < late:
                        continue
                    os.kill(pid, signal.SIGKILL)
                    why = "time budget (killed)"
                del live[fd]
                os.close(fd)
                os.waitpid(pid, 0)
                try:
                    res = pickle.loads(b"".join(buf))
                except Exception:
                    res = failed(idx, why, t0)
                yield res
    finally:
        for fd, (pid, _, _, _) in live.items():
            os.kill(pid, signal.SIGKILL)
            os.close(fd)
            os.waitpid(pid, 0)


def native(items, tag):
    """Run harness cases concretely on un-instrumented code in a fresh process."""
    if not items:
        return []
    p = subprocess.run([PY, "-m", "sx.replay", "--batch"], cwd=HERE, input=json.dumps(items),
                       capture_output=True, text=True, timeout=600,
                       env=dict(os.environ, PYTHONDONTWRITEBYTECODE="1"))
    if p.returncode != 0:
        raise RuntimeError("native replay failed: " + p.stderr[-3000:])
    return json.loads(p.stdout)


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--only")
    ap.add_argument("--list", action="store_true")
    ap.add_argument("-j", type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument("--limit", type=float, default=None, help="wall-clock limit of the check")
    ap.add_argument("-v", action="store_true")
    ap.add_argument("--no-evidence", action="store_true")
    a = ap.parse_args(argv)
    pid = a.prop.upper()
    t0 = time.time()
    limit = a.limit or (420.0 if a.tier == "quick" else 3000.0)
    mod = load_prop(pid, True)
    cases = mod.cases(a.tier)
    names = [c.name for c in cases]
    assert len(set(names)) == len(names), "duplicate case names"
    if a.only:
        cases = [c for c in cases if a.only in c.name]
    if a.list:
        for c in cases:
            print(c.name)
        return 0
    heap = loader.Heap(["eth_abi", "eth_utils"] + list(prop_options(pid).get("heap", ())))
    G.update(cases=cases, heap=heap, tier=a.tier, seed=a.seed, known=api.load_known(),
             deadline=t0 + limit, scale=1.0 if a.tier == "quick" else 8.0,
             qt=20000 if a.tier == "quick" else 120000, functions=Functions())
    results = []
    violations = []
    order = sorted(range(len(cases)), key=lambda i: -getattr(cases[i], "budget", 0))
    spurious = []

    def confirm(r):
        """replay a counterexample on the real code; True if reproduced."""
        for v in r["violations"]:
            out = native([dict(prop=pid, case=r["case"], tier=a.tier, inputs=v["inputs"])], "ce")
            v["replay"] = out[0]
            if out[0]["status"] == "violation":
                violations.append((r, v))
                return True
            spurious.append((r, v))
        return False

    stream = (run_case(i) for i in order) if a.j == 1 else parallel(order, a.j)
    for r in stream:
        results.append(r)
        if a.v:
            show(r)
        if r["violations"] and confirm(r):
            stream.close()
            break
    # fidelity: replay path models on the real code
    validated = mismatches = 0
    mism = []
    if not violations:
        items = []
        for r in results:
            for s in r["samples"]:
                items.append(dict(prop=pid, case=r["case"], tier=a.tier, inputs=s["inputs"],
                                  observed=s["observed"]))
            for fid, h in r["known"].items():
                items.append(dict(prop=pid, case=r["case"], tier=a.tier, inputs=h["inputs"],
                                  known=fid))
        n = max(1, min(a.j, (len(items) + 19) // 20))
        parts = [items[i::n] for i in range(n)]
        import concurrent.futures as cf
        with cf.ThreadPoolExecutor(n) as ex:
            outs = list(ex.map(lambda p: native(p, "val"), parts))
        for p, o in zip(parts, outs):
            for it, out in zip(p, o):
                if out["status"] == "violation" and "known" not in it:
                    r = next(q for q in results if q["case"] == it["case"])
                    violations.append((r, dict(what=out["what"], inputs=it["inputs"],
                                               replay=out)))
                elif "known" in it:
                    it["reproduced"] = it["known"] in out.get("known", {})
                elif out["status"] == "ok" and norm(out.get("observed")) == norm(it["observed"]):
                    validated += 1
                else:
                    mism.append((it, out))
        known_seen = {}
        for p in parts:
            for it in p:
                if it.get("reproduced"):
                    known_seen.setdefault(it["known"], it)
        for p, o in zip(parts, outs):
            for it, out in zip(p, o):
                if "known" in it and it["known"] not in known_seen:
                    mism.append((it, out))
    else:
        known_seen = {}
    errors = [r for r in results if r["error"]]
    incon = []
    for r in results:
        for x in sorted(set(r["inconclusive"])):
            incon.append("%s: %s" % (r["case"], x))
        for w, c in r["cuts"].items():
            incon.append("%s: %d path(s) cut: %s" % (r["case"], c, w))
        for x in r["missing"]:
            incon.append("%s: cover '%s' not reached" % (r["case"], x))
        if r["error"]:
            incon.append("%s: engine error: %s" % (r["case"], r["error"].strip().splitlines()[-1]))
    for r, v in spurious:
        incon.append("%s: counterexample not reproduced on the real code (%s; replay: %s)" % (
            r["case"], v["what"], v["replay"].get("status")))
    for it, out in mism:
        incon.append("%s: path model differs from the real run: %s vs %s" % (
            it["case"], json.dumps(it.get("observed"))[:300], json.dumps(out)[:300]))
    wall = time.time() - t0
    ev = evidence(pid, a, mod, cases, results, validated, incon, violations, known_seen, wall)
    if not a.no_evidence and not a.only:
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")
    c = ev["coverage"]
    print("%s %s: %d cases, %d paths, %d checks, %d queries, solver %.1fs, %d path models "
          "replayed on the real code, wall %.1fs" % (
              pid, a.tier, len(results), c["states"], c["checks"], c["queries"], c["solver_s"],
              validated, wall))
    for x in incon[:40]:
        print("INCONCLUSIVE: " + x)
    if a.v:
        for r in errors:
            print(r["error"])
    for fid, it in sorted(known_seen.items()):
        e = G["known"][fid]
        print("KNOWN-FINDING: property=%s %s %s" % (pid, fid, e["what"]))
    if violations:
        r, v = violations[0]
        os.makedirs(os.path.join(HERE, "evidence", "replay"), exist_ok=True)
        blob = dict(prop=pid, case=r["case"], tier=a.tier, inputs=v["inputs"], what=v["what"])
        h = hashlib.sha1(json.dumps(blob, sort_keys=True).encode()).hexdigest()[:10]
        path = os.path.join(HERE, "evidence", "replay", "%s-%s.json" % (pid, h))
        with open(path, "w") as f:
            json.dump(blob, f, indent=1)
            f.write("\n")
        print("violated in case %s: %s" % (r["case"], v["what"]))
        print("inputs: %s" % json.dumps(v["inputs"])[:2000])
        print("reproduce: cd /verif && %s -m sx.replay %s" % (PY, path))
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    return 0


def norm(j):
    """observations up to the exponent of decimals (compared by value)"""
    if isinstance(j, list):
        return [norm(x) for x in j]
    if isinstance(j, dict):
        if "d" in j and isinstance(j["d"][2], int):
            s, c, e = j["d"]
            v = int(c or "0")
            while v and v % 10 == 0:
                v //= 10
                e += 1
            return {"d": [s if v else 0, str(v), e if v else 0]}
        return {k: norm(v) for k, v in j.items()}
    return j


def show(r):
    st = r["stats"]
    print("  %-50s paths=%s cut=%s checks=%s q=%s solver=%.1f wall=%.1f%s%s%s%s" % (
        r["case"], st.get("paths"), st.get("cut"), st.get("checks"), st.get("queries"),
        st.get("solver_s", 0), r["wall"], "" if r["exhausted"] else " NOT-EXHAUSTED",
        " VIOL " + str(r["violations"])[:300] if r["violations"] else "",
        " ERR " + r["error"].strip().splitlines()[-1] if r["error"] else "",
        " conc=%s" % r["conc"] if r["conc"] else ""), flush=True)


def evidence(pid, a, mod, cases, results, validated, incon, violations, known_seen, wall):
    tot = {}
    fns = set()
    conc = {}
    for r in results:
        for k, v in r["stats"].items():
            tot[k] = tot.get(k, 0) + v
        fns.update(r["functions"])
        for k, v in r["conc"].items():
            conc[k] = conc.get(k, 0) + v
    doc = getattr(mod, "INFO", {})
    samples = []
    for r in sorted(results, key=lambda r: r["case"])[:400:40]:
        for s in r["samples"][:1]:
            samples.append(dict(case=r["case"], inputs=s["inputs"], observed=s["observed"]))
    samples = json.loads(json.dumps(samples)[:20000]) if len(json.dumps(samples)) < 20000 else samples[:2]
    covers = {}
    for r in results:
        for k, v in r["covers"].items():
            covers[k] = covers.get(k, 0) + v
    cov = dict(
        states=int(tot.get("paths", 0)),
        transitions=int(tot.get("decisions", 0)),
        traces_validated_against_impl=validated,
        samples=samples,
        cases=len(results),
        cases_exhausted=sum(1 for r in results if r["exhausted"]),
        paths_completed=int(tot.get("completed", 0)),
        paths_infeasible=int(tot.get("infeasible", 0)),
        paths_cut=int(tot.get("cut", 0)),
        checks=int(tot.get("checks", 0)),
        checks_discharged=int(tot.get("discharged", 0)),
        checks_needing_solver=int(tot.get("checks_solver", 0)),
        queries=int(tot.get("queries", 0)),
        queries_sat=int(tot.get("sat", 0)),
        queries_unsat=int(tot.get("unsat", 0)),
        queries_unknown=int(tot.get("unknown", 0)),
        solver_s=round(tot.get("solver_s", 0.0), 2),
        functions_encoded=sorted(fns),
        bounds=doc.get("bounds", ""),
        outside=doc.get("outside", ""),
        assumptions=doc.get("assumptions", []),
        concretised=conc,
        reachability_witnesses=covers,
        inconclusive=incon[:200],
        violations=len(violations),
        known_findings=sorted(known_seen),
    )
    return dict(property=pid, tier=a.tier, seed=a.seed, level="model_checking", coverage=cov,
                wall_s=round(wall, 2))


if __name__ == "__main__":
    try:
        code = main()
    except Exception:
        traceback.print_exc()
        code = 2
    sys.exit(code)
