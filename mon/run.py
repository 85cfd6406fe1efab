"""python -m mon.run ID [--tier quick|thorough] [--seed N]

Runs the check in several processes at once (QT_SHARDS, or as below), which differ only in the seed of their random
choices: the first has the seed asked for, so that QT_SHARDS=1 with the seed of a replay file reproduces it. Their
observations are merged into one verdict and one evidence file."""
import argparse
import importlib
import os
import pickle
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import warnings

warnings.simplefilter("ignore")

# most checks run in four; these keep several cores busy by themselves
PROCESSES = {"C16": 2, "C17": 3, "C24": 2}


def check(pid, tier, seed):
    """One process: run the check, return its exit code."""
    from mon import report
    try:
        mod = importlib.import_module(f"mon.checks.{pid.lower()}")
    except Exception as e:
        import traceback
        tb = traceback.format_exc()
        ctx = report.Ctx(pid, tier, seed)
        if report.from_library(e):
            return report.report_violation(ctx, report.Violation(f"import of the library failed: {e!r}", trace=tb[-1500:]))
        print(tb)
        return report.finish(ctx, 2, tb[-1500:])
    return report.execute(pid, mod.run, mod.META, tier, seed)


class Shard:
    def __init__(self, i, pid, tier, seed):
        self.i, self.seed = i, seed + 100003 * i
        self.dir = tempfile.mkdtemp(prefix=f"shard{i}_")
        self.out = os.path.join(self.dir, "result")
        self.log = open(os.path.join(self.dir, "log"), "w+")
        env = dict(os.environ, QT_SHARD_OUT=self.out, TMPDIR=self.dir, MPLCONFIGDIR=self.dir, HOME=self.dir)
        self.p = subprocess.Popen([sys.executable, "-m", "mon.run", pid, "--tier", tier, "--seed", str(self.seed)], env=env,
                                  stdout=self.log, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, start_new_session=True)

    def stop(self):
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except OSError:
            pass
        self.p.wait()

    def text(self):
        self.log.flush()
        self.log.seek(0)
        return self.log.read()

    def result(self):
        try:
            return pickle.load(open(self.out, "rb"))
        except Exception:
            return None


def sharded(pid, tier, seed, n):
    from mon import report
    shards = []

    def stop(*_):
        for s in shards:
            s.stop()
        os._exit(124)

    signal.signal(signal.SIGTERM, stop)
    signal.signal(signal.SIGINT, stop)
    t0 = time.time()
    shards.extend(Shard(i, pid, tier, seed) for i in range(n))
    running, bad = list(shards), None
    while running and bad is None:
        time.sleep(0.05)
        for s in list(running):
            if s.p.poll() is not None:
                running.remove(s)
                if s.p.returncode == 1 and s.result() is not None:
                    bad = s
                    break
    for s in shards:
        s.stop()
    if bad is not None:
        replay = os.path.join(report.VERIF, "replays", f"{pid}.json")
        os.makedirs(os.path.dirname(replay), exist_ok=True)
        shutil.copyfile(bad.out + ".replay", replay)
        print(bad.text().replace(bad.out + ".replay", replay), end="")
        report.write_evidence(bad.result()["evidence"])
        return 1
    results = [(s, s.result()) for s in shards]
    lost = [s for s, r in results if r is None]
    got = [r for _, r in results if r is not None]
    for s, r in results:
        if r is None or r["verdict"] != 0:
            print(f"--- process {s.i} (seed {s.seed}), exit code {s.p.returncode}\n{s.text()[-3000:]}")
    if not got:
        return 2
    ev = merge([r["evidence"] for r in got])
    distinct = set().union(*(r["distinct"] for r in got))
    ev["seed"], ev["wall_s"] = seed, round(time.time() - t0, 2)
    cov = ev["coverage"]
    cov["distinct_nontrivial"], cov["processes"] = len(distinct), len(got)
    if lost:
        cov["processes_lost"] = len(lost)
    report.write_evidence(ev)
    if results[0][1] is None or any(r["verdict"] != 0 for r in got):
        return 2
    short = cov["stopped_by_time_budget"]
    need = got[0]["min_nontrivial"]
    # a slow machine may stop a run early: then less is covered (and said so), not nothing decided
    need = max(1, need // 20) if short else need
    if len(distinct) < need:
        print(f"INCONCLUSIVE property={pid} only {len(distinct)} non-trivial cases observed, {need} needed")
        return 2
    print(f"HELD property={pid} tier={tier} seed={seed} processes={len(got)} evaluations={cov['evaluations']} "
          f"distinct={len(distinct)} counters={cov['counters']} wall={ev['wall_s']:.1f}s"
          + (" (time budget reached)" if short else ""))
    return 0


def merge(evs):
    ev = evs[0]
    cov = ev["coverage"]
    for e in evs[1:]:
        c = e["coverage"]
        cov["evaluations"] += c["evaluations"]
        cov["samples"] = (cov["samples"] + c["samples"][:3])[:16]
        cov["stopped_by_time_budget"] |= c["stopped_by_time_budget"]
        for k, v in c["counters"].items():
            old = cov["counters"].get(k)
            if isinstance(v, (int, float)) and isinstance(old, (int, float)):
                # extremes are kept as extremes, counts are added
                v = max(v, old) if k.startswith(("max", "largest", "longest", "most")) else \
                    min(v, old) if k.startswith(("min", "smallest")) else v + old
            cov["counters"][k] = v
        ev["assumptions"] = ev["assumptions"] + [a for a in e["assumptions"] if a not in ev["assumptions"]]
    return ev


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    a = ap.parse_args()
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    n = int(os.environ.get("QT_SHARDS", 0)) or PROCESSES.get(a.pid, 4)
    if os.environ.get("QT_SHARD_OUT") or n <= 1:
        rc = check(a.pid, tier, a.seed)
    else:
        rc = sharded(a.pid, tier, a.seed, n)
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)


if __name__ == "__main__":
    main()
