"""Run harness cases concretely on the real, un-instrumented code.

python -m sx.replay FILE     one replay file, exit 1 if the violation reproduces
python -m sx.replay --batch  JSON list on stdin, JSON results on stdout
"""
import json
import os
import sys
import traceback

from . import api, wire
from .run import load_prop

_MODS = {}
_CASES = {}


def one(it, known):
    pid = it["prop"]
    if pid not in _MODS:
        _MODS[pid] = load_prop(pid, False)
    key = (pid, it.get("tier", "quick"))
    if key not in _CASES:
        _CASES[key] = {c.name: c for c in _MODS[pid].cases(key[1])}
    case = _CASES[key][it["case"]]
    ctx = api.ConcreteCtx({k: wire.dec(v) for k, v in it["inputs"].items()}, known)
    try:
        case.fn(ctx, *case.args, **case.kw)
        st = dict(status="ok")
    except api.Violation as e:
        st = dict(status="violation", what=e.what)
    except api.Unreplayable as e:
        st = dict(status="unreplayable", what=str(e))
    except Exception as e:
        st = dict(status="error", what="%s: %s" % (type(e).__name__, e),
                  tb=traceback.format_exc()[-1500:])
    st["observed"] = [[n, wire.enc(v)] for n, v in ctx.observed]
    st["known"] = ctx.known_hit
    return st


def isolated(it, known):
    """each item in a forked child: no state leaks between replays"""
    r, w = os.pipe()
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            data = json.dumps(one(it, known)).encode()
            with os.fdopen(w, "wb") as f:
                f.write(data)
        except BaseException:
            traceback.print_exc()
            code = 3
        os._exit(code)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        data = f.read()
    os.waitpid(pid, 0)
    try:
        return json.loads(data)
    except ValueError:
        return dict(status="error", what="replay process died")


def main():
    known = api.load_known()
    if sys.argv[1:] == ["--batch"]:
        items = json.load(sys.stdin)
        for p in {it["prop"] for it in items}:
            _MODS[p] = load_prop(p, False)
            for t in {it.get("tier", "quick") for it in items}:
                _CASES[(p, t)] = {c.name: c for c in _MODS[p].cases(t)}
        json.dump([isolated(it, known) for it in items], sys.stdout)
        return 0
    with open(sys.argv[1]) as f:
        it = json.load(f)
    out = one(it, known)
    print(json.dumps(out, indent=1))
    return 1 if out["status"] == "violation" else 0


if __name__ == "__main__":
    sys.exit(main())
