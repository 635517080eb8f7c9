"""Bounded-exhaustive exploration driver shared by all checks.

A property module (``/verif/props/cNN.py``) enumerates *items* - each item is one
complete finite family of executions (an expression, an operation history, an
environment script ...).  The driver forks workers, lets each run its items on
the real code, merges the measured counts and writes the evidence file.

Nothing here samples: the item list is a deterministic function of the tier.
"""
import contextlib
import fnmatch
import hashlib
import importlib
import io
import json
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.environ.get("VERIF_EVID") or os.path.join(VERIF, "evidence")
KNOWN = os.path.join(VERIF, "known_findings.jsonl")
MAX_VIOL = 25


class ItemTimeout(BaseException):
    pass


class Skip(Exception):
    """Raised by a property module: the case is outside the stated domain."""


class Ctx:
    """Recorder handed to every item."""

    def __init__(self, item, only=None):
        self.item = item
        self.states = set()
        self.transitions = 0
        self.traces = 0
        self.evals = 0
        self.outcomes = set()
        self.viol = []
        self.skipped = 0
        self.only = only
        self.samples = []

    # -- counting ---------------------------------------------------------
    def state(self, *key):
        self.states.add(hash8(repr(key)))

    def step(self, n=1):
        self.transitions += n

    def trace(self, n=1):
        self.traces += n

    def outcome(self, *key):
        self.outcomes.add(hash8(repr(key)))

    def sample(self, text):
        if len(self.samples) < 2:
            self.samples.append(str(text)[:300])

    # -- verdicts ---------------------------------------------------------
    def fail(self, where, msg, **detail):
        where = str(where)
        self.viol.append(
            {
                "item": self.item,
                "where": where,
                "msg": str(msg)[:600],
                "detail": {k: _short(v) for k, v in detail.items()},
            }
        )
        if len(self.viol) > MAX_VIOL:
            raise TooMany()

    def check(self, cond, where, msg="violated", **detail):
        self.evals += 1
        if not cond:
            self.fail(where, msg, **detail)
        return bool(cond)

    def close(self, got, want, where, rtol=1e-7, atol=1e-9, msg="", shape=True, **detail):
        import numpy as np

        self.evals += 1
        try:
            g = np.asarray(got)
            w = np.asarray(want)
            if g.dtype == object or w.dtype == object:
                raise TypeError(f"object array: {type(got)} {type(want)}")
            if shape and g.shape != w.shape:
                self.fail(where, f"{msg} shape {g.shape} != expected {w.shape}", **detail)
                return False
            ok = np.allclose(g, w, rtol=rtol, atol=atol, equal_nan=True)
        except (ItemTimeout, TooMany):
            raise
        except Exception as e:  # noqa
            self.fail(where, f"{msg} cannot compare: {e!r}", got=got, want=want, **detail)
            return False
        if not ok:
            self.fail(where, f"{msg} value differs", got=g, want=w, **detail)
        return bool(ok)

    @contextlib.contextmanager
    def no_error(self, where):
        """The enclosed operation is defined on this input: raising is a violation."""
        try:
            yield
        except (ItemTimeout, TooMany, Skip):
            raise
        except Exception as e:  # noqa
            tb = traceback.extract_tb(sys.exc_info()[2])
            last = tb[-1]
            self.fail(where, f"raised {type(e).__name__}: {e}",
                      at=f"{os.path.basename(last.filename)}:{last.name}")

    def raises(self, fn, where, exc=Exception):
        self.evals += 1
        try:
            fn()
        except exc:
            return True
        except (ItemTimeout, TooMany):
            raise
        except Exception as e:  # noqa
            self.fail(where, f"raised unexpected {type(e).__name__}: {e}")
            return False
        self.fail(where, "did not raise")
        return False


class TooMany(Exception):
    pass


def _short(v):
    import numpy as np

    if isinstance(v, np.ndarray):
        v = np.array2string(v, precision=6, threshold=40)
    return str(v)[:500]


def hash8(s):
    if not isinstance(s, bytes):
        s = s.encode()
    return hashlib.blake2b(s, digest_size=8).digest()


def _alarm(signum, frame):
    raise ItemTimeout()


def run_item(mod, item, limit):
    ctx = Ctx(item)
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, limit)
    out = io.StringIO()
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            with contextlib.redirect_stdout(out):
                mod.run(item, ctx)
    except TooMany:
        pass
    except Skip:
        ctx.skipped += 1
    except ItemTimeout:
        ctx.viol.append({"item": item, "where": "termination",
                         "msg": f"execution did not terminate within {limit} s", "detail": {}})
    except Exception as e:  # noqa: the code under test raised where it must not
        tb = traceback.extract_tb(sys.exc_info()[2])
        ctx.viol.append({"item": item, "where": "exception",
                         "msg": f"{type(e).__name__}: {e}"[:600],
                         "detail": {"tb": " <- ".join(
                             f"{os.path.basename(f.filename)}:{f.lineno}:{f.name}"
                             for f in reversed(tb[-6:]))}})
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    return ctx


def _worker(mod, items, idx_q, res_q, limit):
    while True:
        with idx_q.get_lock():
            i = idx_q.value
            idx_q.value += 1
        if i >= len(items):
            break
        t0 = time.time()
        ctx = run_item(mod, items[i], limit)
        res_q.put((i, ctx.states, ctx.transitions, ctx.traces, ctx.evals, ctx.outcomes,
                   ctx.viol, ctx.skipped, ctx.samples, time.time() - t0))
    res_q.put(None)


def load_known():
    out = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if line and not line.startswith("#"):
                out.append(json.loads(line))
    return out


def vid(v):
    return json.dumps(v["item"], sort_keys=True) + " :: " + v["where"]


def match_known(known, prop, v):
    for k in known:
        if k.get("status") == "known" and k["property"] == prop:
            for pat in k["match"]:
                if fnmatch.fnmatchcase(vid(v), pat.replace("[", "[[]")):
                    return k
    return None


def ensure_probnum():
    repo = os.environ.get("VERIF_REPO", "/repo")
    src = os.path.join(repo, "src")
    if src in sys.path:
        sys.path.remove(src)
    sys.path.insert(0, src)
    if not os.path.exists(os.path.join(src, "probnum", "_version.py")):
        import types

        m = types.ModuleType("probnum._version")
        m.version = "0.0.0"
        m.__version__ = "0.0.0"
        m.version_tuple = (0, 0, 0)
        sys.modules["probnum._version"] = m
    import probnum

    assert os.path.abspath(probnum.__file__).startswith(os.path.abspath(src)), probnum.__file__


def write_replay(prop, v):
    d = os.path.join(EVID, "replays")
    os.makedirs(d, exist_ok=True)
    h = hash8(vid(v)).hex()
    p = os.path.join(d, f"{prop}-{h}.json")
    with open(p, "w") as f:
        json.dump({"property": prop, **v,
                   "how": f"bash /verif/check.sh {prop} --replay {p}"}, f, indent=1)
    return p


def main(argv):
    import argparse

    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--replay")
    ap.add_argument("--jobs", type=int, default=0)
    ap.add_argument("--grep", help="debug: only items whose json contains this")
    ap.add_argument("--show", type=int, default=0)
    ap.add_argument("--time", action="store_true")
    ap.add_argument("--first", action="store_true", help="debug: stop at the first violation")
    a = ap.parse_args(argv)
    prop = a.prop
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "0") or 0)
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            ensure_probnum()
            sys.path.insert(0, VERIF)
            mod = importlib.import_module("props." + prop.lower())
            items = list(mod.items(a.tier))
    except Exception as e:  # the tree does not even import / construct
        traceback.print_exc()
        v = {"item": "setup", "where": "import", "msg": repr(e), "detail": {}}
        p = write_replay(prop, v)
        _evidence(prop, a.tier, seed, None, [v], t0, {}, [], 0, 0)
        print(f"VIOLATION property={prop} replay={p}")
        return 1
    if a.replay:
        item = json.load(open(a.replay))["item"]
        r = [run_item(mod, item, 600) for _ in range(2)]
        keys = [sorted(vid(v) for v in c.viol) for c in r]
        print("replay deterministic:", keys[0] == keys[1])
        for v in r[0].viol:
            print(json.dumps(v, indent=1))
        if r[0].viol:
            print(f"VIOLATION property={prop} replay={a.replay}")
            return 1
        return 0
    if a.grep:
        items = [i for i in items if a.grep in json.dumps(i, sort_keys=True)]
    limit = getattr(mod, "ITEM_LIMIT", {}).get(a.tier, 240 if a.tier == "quick" else 1200)
    jobs = a.jobs or min(os.cpu_count() or 4, 8, max(1, len(items)))
    ctxm = mp.get_context("fork")
    if a.first:  # spread over the families of items to fail early
        items = sorted(items, key=lambda i: hash8(json.dumps(i)))
    idx = ctxm.Value("i", 0)
    rq = ctxm.Queue()
    procs = [ctxm.Process(target=_worker, args=(mod, items, idx, rq, limit)) for _ in range(jobs)]
    sys.stdout.flush()
    for p in procs:
        p.start()
    states, outcomes = set(), set()
    tr = traces = evals = skipped = 0
    viol, samples, times = [], [], []
    done = finished = 0
    died = False
    deadline = t0 + (float(os.environ.get("VERIF_DEADLINE", "780")) if a.tier == "quick" else 1e9)
    import queue as _q

    while finished < jobs:
        try:
            r = rq.get(timeout=5)
        except _q.Empty:
            if time.time() > deadline:
                viol.append({"item": "driver", "where": "deadline",
                             "msg": "exploration did not finish", "detail": {}})
                break
            if all(not p.is_alive() for p in procs) and rq.empty():
                died = True
                break
            continue
        if r is None:
            finished += 1
            continue
        done += 1
        states |= r[1]
        tr += r[2]
        traces += r[3]
        evals += r[4]
        outcomes |= r[5]
        viol.extend(r[6])
        skipped += r[7]
        if r[8] and len(samples) < 12:
            samples.extend(r[8][:1])
        times.append((r[9], items[r[0]]))
        if len(viol) > 40 * MAX_VIOL or (a.first and any(match_known(load_known(), prop, v) is None for v in viol)):
            break
    for p in procs:
        if p.is_alive():
            p.terminate()
        p.join(5)
    if died and done < len(items):
        viol.append({"item": "driver", "where": "worker-death",
                     "msg": "a worker process died while running the code under test", "detail": {}})
    known = load_known()
    fresh, seen_known = [], {}
    for v in viol:
        k = match_known(known, prop, v)
        if k is None:
            fresh.append(v)
        else:
            seen_known[k["id"]] = k
    fresh.sort(key=lambda v: (len(json.dumps(v["item"])), vid(v)))
    cov = dict(states=len(states), transitions=tr, traces=traces, evals=evals, skipped=skipped,
               outcomes=len(outcomes), items=len(items), done=done)
    _evidence(prop, a.tier, seed, mod, fresh, t0, cov, samples, jobs, len(seen_known))
    for k in known:
        if k.get("status") == "known" and k["property"] == prop and k["id"] in seen_known:
            print(f"KNOWN-FINDING: property={prop} {k['what']}")
    print(f"{prop} tier={a.tier} items={done}/{len(items)} states={len(states)} transitions={tr} "
          f"executions={traces} evaluations={evals} outcomes={len(outcomes)} skipped={skipped} "
          f"violations={len(fresh)} wall={time.time()-t0:.1f}s")
    if a.time:
        for t, i in sorted(times, key=lambda x: -x[0])[:10]:
            print(f"   {t:.2f}s {json.dumps(i)[:150]}")
    if fresh:
        for v in fresh[: a.show or 5]:
            print("  -", vid(v)[:400], "|", v["msg"][:300])
            for kk, vv in v["detail"].items():
                print("       ", kk, "=", str(vv)[:300].replace("\n", " "))
        p = write_replay(prop, fresh[0])
        print(f"VIOLATION property={prop} replay={p}")
        return 1
    return 0


def _evidence(prop, tier, seed, mod, fresh, t0, cov, samples, jobs, nknown):
    os.makedirs(EVID, exist_ok=True)
    level = getattr(mod, "LEVEL", "model_checking") if mod else "model_checking"
    exhaustive = bool(cov) and cov.get("done") == cov.get("items")
    d = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": level,
        "coverage": {
            "states": cov.get("states", 0),
            "transitions": cov.get("transitions", 0),
            "traces_validated_against_impl": cov.get("traces", 0),
            "evaluations": cov.get("evals", 0),
            "distinct_nontrivial": cov.get("outcomes", 0),
            "exhaustive": exhaustive,
            "rule": getattr(mod, "RULE", "") if mod else "",
            "samples": samples or ["(none)"],
            "items": cov.get("items", 0),
            "items_completed": cov.get("done", 0),
            "items_outside_domain": cov.get("skipped", 0),
            "known_findings_seen": nknown,
        },
        "wall_s": round(time.time() - t0, 2),
        "assumptions": list(getattr(mod, "ASSUMPTIONS", [])) if mod else [],
        "violations": len(fresh),
    }
    with open(os.path.join(EVID, f"{prop}.json"), "w") as f:
        json.dump(d, f, indent=1)


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
