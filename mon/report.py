"""Evidence, verdicts and replay files.

A check is a function run(ctx). It calls ctx.case(...) for every evaluation, ctx.fail(...) when the
monitor sees a violation. Verdicts are three-valued: 0 held on what was observed, 1 violated,
2 inconclusive (an error of the check, or too few observations).
"""
from __future__ import annotations

import json
import os
import pickle
import random
import sys
import time
import traceback
from contextlib import contextmanager

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("QT_REPO", "/repo")
SHARD = os.environ.get("QT_SHARD_OUT")  # set when several processes run one check: see mon/run.py
KNOWN = os.path.join(VERIF, "known_findings.jsonl")


class Violation(Exception):
    def __init__(self, what, **detail):
        super().__init__(what)
        self.what, self.detail = what, detail


class Inconclusive(Exception):
    pass


def _plain(x):
    if isinstance(x, dict):
        return {str(k): _plain(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [_plain(v) for v in x]
    if isinstance(x, (set, frozenset)):
        return sorted((_plain(v) for v in x), key=repr)
    if isinstance(x, (str, int, float, bool)) or x is None:
        return x
    if hasattr(x, "item"):
        try:
            return x.item()
        except Exception:
            pass
    return repr(x)


class Ctx:
    def __init__(self, pid, tier, seed, level="exploration", rule="", min_nontrivial=1):
        self.pid, self.tier, self.seed, self.level = pid, tier, seed, level
        self.rule, self.min_nontrivial = rule, min_nontrivial
        self.quick = tier == "quick"
        self.rng = random.Random(f"{pid}/{seed}/{tier}")
        self.evaluations = 0
        self.distinct = set()
        self.samples = []
        self.counters = {}
        self.violations = []
        self.t0 = time.time()
        self.soft = float(os.environ.get("QT_BUDGET", 0)) or (100.0 if self.quick else 780.0)
        self.assumptions = []
        self.current = None
        self.truncated = False

    def order(self, items):
        """The items, in every process but the first in an order of its own: what an object leaves behind in the process
        may not matter to those made after it, whichever they are."""
        items = list(items)
        if self.seed >= 100003:
            self.rng.shuffle(items)
        return items

    # --- budget ---
    def left(self):
        return self.soft - (time.time() - self.t0)

    def out_of_time(self, share=1.0):
        """True once `share` of the time budget is gone; recorded, as it narrows the coverage."""
        if time.time() - self.t0 > self.soft * share:
            self.truncated = True
            return True
        return False

    # --- bookkeeping ---
    def count(self, name, k=1):
        self.counters[name] = self.counters.get(name, 0) + k

    def case(self, key, nontrivial=True, sample=None, n=1):
        """One evaluation. key identifies the case; distinct keys of non-trivial cases are counted."""
        self.evaluations += n
        if nontrivial:
            h = hash(key) if not isinstance(key, int) else key
            if h not in self.distinct:
                self.distinct.add(h)
                if sample is not None and (len(self.samples) < 6 or self.rng_s() < 0.002):
                    self.samples.append(_plain(sample))
                    del self.samples[12:]

    def rng_s(self):
        return random.random()

    def fail(self, what, **detail):
        raise Violation(what, **detail)

    def expect(self, cond, what, **detail):
        if not cond:
            raise Violation(what, **detail)

    @contextmanager
    def guard(self, **case):
        """Everything inside exercises the library on inputs of its domain: if library code raises,
        that is a violation, as is a result so malformed that it cannot be read; anything else that the harness
        raises (a missing name, a failing assertion of its own, no memory) is an error of the check."""
        self.current = case
        try:
            yield
        except Violation as v:
            v.detail = {**case, **v.detail}
            raise
        except (Inconclusive, KeyboardInterrupt):
            raise
        except Exception as e:
            if from_library(e):
                raise Violation(f"library raised {type(e).__name__}: {e}",
                                trace=traceback.format_exc()[-1500:], **case) from e
            if isinstance(e, (TypeError, KeyError, IndexError, ValueError, ZeroDivisionError, StopIteration)) or (
                    isinstance(e, AttributeError) and "'NoneType'" in str(e)):
                # the monitor reads back a result of the library, and it is not of the documented form
                raise Violation(f"a result of the library is not of the documented form ({type(e).__name__}: {e})",
                                trace=traceback.format_exc()[-1500:], **case) from e
            raise


def from_library(e):
    """Did the exception come out of a call into the library?"""
    tb = e.__traceback__
    lib = os.path.join(os.path.realpath(REPO), "qtcodes") + os.sep
    while tb is not None:
        if os.path.realpath(tb.tb_frame.f_code.co_filename).startswith(lib):
            return True
        tb = tb.tb_next
    return False


def known_findings(pid):
    out = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if line:
                r = json.loads(line)
                if r.get("property") == pid and r.get("status") == "known":
                    out.append(r)
    return out


def finish(ctx, verdict, err=None):
    cov = {
        "evaluations": ctx.evaluations,
        "distinct_nontrivial": len(ctx.distinct),
        "rule": ctx.rule,
        "samples": ctx.samples or [{"note": "no sample recorded"}],
        "counters": ctx.counters,
        "stopped_by_time_budget": ctx.truncated,
    }
    ev = {
        "property": ctx.pid,
        "tier": ctx.tier,
        "seed": ctx.seed,
        "level": ctx.level,
        "coverage": cov,
        "assumptions": ctx.assumptions,
        "wall_s": round(time.time() - ctx.t0, 2),
        "violations": len(ctx.violations),
    }
    if err:
        ev["coverage"]["error"] = err
    if SHARD:
        with open(SHARD + ".part", "wb") as f:
            pickle.dump({"verdict": verdict, "evidence": ev, "distinct": ctx.distinct, "min_nontrivial": ctx.min_nontrivial}, f)
        os.replace(SHARD + ".part", SHARD)
    else:
        write_evidence(ev)
    return verdict


def write_evidence(ev):
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, ev["property"] + ".json"), "w") as f:
        json.dump(ev, f, indent=1)


def execute(pid, fn, meta, tier, seed):
    ctx = Ctx(pid, tier, seed, **meta)
    try:
        import qtcodes
        where = os.path.realpath(qtcodes.__file__)
        if not where.startswith(os.path.realpath(REPO) + os.sep):
            raise Inconclusive(f"qtcodes imported from {where}, not from {REPO}")
    except Inconclusive as e:
        print(f"INCONCLUSIVE property={pid} {e}")
        return finish(ctx, 2, str(e))
    except Exception as e:
        # the library cannot even be imported
        ctx.violations.append(e)
        return report_violation(ctx, Violation(f"import of the library failed: {e!r}"))
    try:
        fn(ctx)
    except Violation as v:
        ctx.violations.append(v)
        return report_violation(ctx, v)
    except Inconclusive as e:
        print(f"INCONCLUSIVE property={pid} {e}")
        return finish(ctx, 2, str(e))
    except Exception as e:
        traceback.print_exc()
        print(f"ERROR property={pid} {type(e).__name__}: {e} (case {ctx.current})")
        return finish(ctx, 2, repr(e))
    # a slow machine may stop a run early: then less is covered (and said so), not nothing decided
    need = max(1, ctx.min_nontrivial // 20) if ctx.truncated else ctx.min_nontrivial
    if len(ctx.distinct) < need and not SHARD:
        print(f"INCONCLUSIVE property={pid} only {len(ctx.distinct)} non-trivial cases observed, {need} needed")
        return finish(ctx, 2, "too few observations")
    print(f"HELD property={pid} tier={tier} seed={seed} evaluations={ctx.evaluations} "
          f"distinct={len(ctx.distinct)} counters={ctx.counters} wall={time.time()-ctx.t0:.1f}s"
          + (" (time budget reached)" if ctx.truncated else ""))
    return finish(ctx, 0)


def report_violation(ctx, v):
    if SHARD:
        path = SHARD + ".replay"
    else:
        d = os.path.join(VERIF, "replays")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, f"{ctx.pid}.json")
    with open(path, "w") as f:
        json.dump({"property": ctx.pid, "tier": ctx.tier, "seed": ctx.seed, "what": v.what,
                   "detail": _plain(v.detail),
                   "how": f"QT_SHARDS=1 VERIF_TIER={ctx.tier} VERIF_SEED={ctx.seed} bash /verif/run.sh {ctx.pid}"},
                  f, indent=1)
    print(f"violated: {v.what}")
    print("detail:", json.dumps(_plain(v.detail))[:3000])
    print(f"VIOLATION property={ctx.pid} replay={path}")
    return finish(ctx, 1)
