"""C17: real saves run in forked processes which are killed at every file-system event and at lines executed inside a
save, or whose disk is full (write limits, failing opens and renames). After each, the files are read back by an
offline checker and a new session goes on saving. Random histories of saves, sweeps and sessions run against a model."""
import contextlib
import errno
import io
import os
import resource
import shutil
import signal
import sys
import tempfile
import time
import traceback

import numpy as np
from qtcodes import XXZZQubit, RepetitionDecoder, RepetitionQubit, RotatedDecoder, TopologicalAnalysis, TopologicalBatchAnalysis, \
    TopologicalBenchmark

META = dict(level="fault_enumeration",
            rule="one evaluation = one save that was killed or failed at one point (or one history step), with the files "
                 "read back; distinct by (scenario, fault kind, fault point) resp. (history, step)", min_nontrivial=150)

WRITE_EVENTS = ("open", "os.open", "os.rename", "os.link", "os.symlink", "os.truncate", "os.mkdir", "os.remove",
                "shutil.copyfile", "shutil.move", "tempfile.mkstemp", "tempfile.mkdtemp")
HOOK = {"on": False, "n": 0, "at": None, "mode": None, "log": None}


def is_write(event, args):
    if event == "open":
        mode, flags = args[1], args[2]
        if isinstance(mode, str):
            return any(c in mode for c in "wax+")
        return bool(isinstance(flags, int) and flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT))
    return event in WRITE_EVENTS


def hook(event, args):
    h = HOOK
    if not h["on"] or not (event == "open" or event.startswith(("os.", "shutil.", "tempfile."))):
        return
    if event in ("os.listdir", "os.scandir", "os.putenv", "os.unsetenv", "os.fork"):
        return
    if h["mode"] == "fail" and not is_write(event, args):
        return
    if h["mode"] == "unreadable" and (event != "open" or is_write(event, args) or not str(args[0]).endswith(".npz")):
        return
    h["n"] += 1
    if h["log"] is not None:
        h["log"].append(event)
    if h["at"] == h["n"]:
        if h["mode"] == "kill":
            os._exit(77)
        h["at"] = None
        if h["mode"] == "unreadable":
            code = (errno.EIO, errno.EACCES, errno.EMFILE, errno.ENOMEM, errno.ESTALE)[h["code"]]
            raise OSError(code, os.strerror(code) + " (injected)", str(args[0]))
        raise OSError(errno.ENOSPC, "No space left on device (injected)")


INSTALLED = []


def bench(spec):
    kind, d, T = spec
    dec = {"rot": RotatedDecoder, "rep": RepetitionDecoder}[kind]({"d": d, "T": T})
    return TopologicalBenchmark(decoder=dec, circ=None)


def child(ctx, fn, limit=60):
    """Run fn in a forked process; returns its exit code (77 killed by monitor, 11 OSError, 12 other exception)."""
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        try:
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
                fn()
            code = 0
        except OSError:
            code = 11
        except BaseException:
            try:
                open("child_error.txt", "w").write(traceback.format_exc())
            except BaseException:
                pass
            code = 12
        os._exit(code)
    end = time.time() + limit
    while True:
        p, st = os.waitpid(pid, os.WNOHANG)
        if p:
            return os.waitstatus_to_exitcode(st)
        if time.time() > end:
            os.kill(pid, signal.SIGKILL)
            os.waitpid(pid, 0)
            return "hung"
        time.sleep(0.0005)


def error_text():
    if os.path.exists("child_error.txt"):
        t = open("child_error.txt").read()
        os.unlink("child_error.txt")
        return t[-1200:]
    return ""


def read(ctx, filename, detail):
    """All points of a data file, [] if there is none."""
    if not os.path.exists(filename):
        return []
    try:
        with np.load(filename) as z:
            xs = [float(x) for x in z["physical_error_rates"]]
            ys = [float(y) for y in z["logical_error_rates"]]
    except Exception as e:
        ctx.fail("the data file cannot be read any more", error=repr(e), size=os.path.getsize(filename), **detail)
    ctx.expect(len(xs) == len(ys), "physical and logical rates in the file differ in number", **detail)
    ctx.expect(xs == sorted(xs), "the points in the file are not sorted by physical error rate", physical=xs[:20], **detail)
    return sorted(zip(xs, ys))


def new_point(rng, used):
    while True:
        # as typed by hand, or with all the digits that np.linspace or a ratio of counts have
        p = round(rng.uniform(0.001, 0.45), 6) if rng.random() < 0.6 else rng.uniform(1e-9, 0.45)
        if p not in used:
            used.add(p)
            return p, round(rng.random(), 6) if rng.random() < 0.6 else rng.randrange(3000) / 2999


class Scenario:
    """A directory whose file holds some points; each fault runs on a fresh copy of it."""

    def __init__(self, ctx, spec, points, tag):
        self.ctx, self.spec, self.tag = ctx, spec, tag
        self.base = os.path.join(os.getcwd(), f"base_{tag}")
        os.makedirs(self.base)
        self.old = []
        used = set()
        with ctx.guard(scenario=tag, part="prepare"):
            self.name = bench(spec).filename
            pts = [new_point(ctx.rng, used) for _ in range(points)]
            self.more = new_point(ctx.rng, used)
            cwd = os.getcwd()
            os.chdir(self.base)
            try:
                b = bench(spec)
                for p, l in pts[:20]:
                    b.append_data(p, l)
                if pts[20:]:  # the rest as if by earlier sessions
                    with np.load(self.name) as z:
                        parts = {k: z[k] for k in z.files}
                    both = sorted(pts)
                    parts["physical_error_rates"] = np.array([p for p, _ in both])
                    parts["logical_error_rates"] = np.array([l for _, l in both])
                    np.savez(self.name, **parts)
                    b.append_data(*self.more)
                    pts.append(self.more)
                self.old = read(ctx, self.name, dict(scenario=tag))
            finally:
                os.chdir(cwd)
            ctx.expect(self.old == sorted(pts), "points saved one by one are not all in the file", saved=len(pts),
                       found=len(self.old))
        self.new = new_point(ctx.rng, used)
        self.after = new_point(ctx.rng, used)

    def save(self, kind, at):
        """The faulty save, in the child."""
        b = bench(self.spec)
        p, l = self.new
        if kind in ("kill", "fail"):
            HOOK.update(on=True, n=0, at=at, mode=kind)
        elif kind == "unreadable":  # at: which of the errors, when the file is opened for the 1st, 2nd ... time
            HOOK.update(on=True, n=0, at=1 + at // 5, mode=kind, code=at % 5)
        elif kind == "line":
            left = [at]

            def tracer(frame, event, arg):
                left[0] -= 1
                if left[0] == 0:
                    os._exit(77)
                return tracer

            sys.settrace(tracer)
        elif kind == "full":
            signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
            resource.setrlimit(resource.RLIMIT_FSIZE, (at, at))
        elif kind == "cut":
            signal.signal(signal.SIGXFSZ, signal.SIG_DFL)
            resource.setrlimit(resource.RLIMIT_FSIZE, (at, at))
        b.append_data(p, l)
        sys.settrace(None)
        HOOK["on"] = False

    def points(self, kind):
        """How many events of this kind a save has."""
        log = os.path.join(self.base, "..", f"count_{self.tag}")

        def count():
            os.chdir(self.copy())
            b = bench(self.spec)
            if kind == "line":
                n = [0]

                def tracer(frame, event, arg):
                    n[0] += 1
                    return tracer

                sys.settrace(tracer)
                b.append_data(*self.new)
                sys.settrace(None)
                open(log, "w").write(str(n[0]))
            else:
                HOOK.update(on=True, n=0, at=None, mode=kind, log=[])
                b.append_data(*self.new)
                HOOK["on"] = False
                open(log, "w").write(str(HOOK["n"]))
                open(log + ".events", "w").write(" ".join(HOOK["log"]))

        rc = child(self.ctx, count)
        if rc != 0:
            self.ctx.fail("a save without any fault failed", exit=rc, scenario=self.tag, error=error_text())
        n = int(open(log).read())
        if kind == "kill":
            self.events = open(log + ".events").read().split()
        return n

    def copy(self):
        d = tempfile.mkdtemp(prefix="run", dir=os.path.dirname(self.base))
        shutil.rmtree(d)
        shutil.copytree(self.base, d)
        return d

    def fault(self, kind, at):
        ctx = self.ctx
        d = self.copy()
        cwd = os.getcwd()
        os.chdir(d)
        detail = dict(scenario=self.tag, points_before=len(self.old), fault=kind, at=at, new=self.new)
        try:
            with ctx.guard(**detail):
                rc = child(ctx, lambda: self.save(kind, at))
                ctx.expect(rc != "hung", "a failing save hangs")
                if kind in ("kill", "line", "cut"):
                    ctx.expect(rc in (0, 77, -signal.SIGXFSZ), "the save ended in another way than the crash", exit=rc,
                               error=error_text())
                ctx.count(f"{kind}_" + ("died" if rc in (77, -signal.SIGXFSZ) else "refused" if rc in (11, 12) else "completed"))
                error_text()
                got = read(ctx, self.name, {})
                ctx.expect(got in (self.old, sorted(self.old + [self.new])), "the file holds neither the points saved "
                           "before nor these and the new one", found=len(got),
                           lost=[p for p in self.old if p not in got][:5],
                           foreign=[p for p in got if p not in self.old and p != self.new][:5])
                if rc == 0:
                    ctx.expect(self.new in got, "a save reported as done is not in the file")
                # the next session goes on
                def go_on():
                    bench(self.spec).append_data(*self.after)

                rc2 = child(ctx, go_on)
                ctx.expect(rc2 == 0, "saving fails after an earlier crash or full disk", exit=rc2, error=error_text())
                got2 = read(ctx, self.name, {})
                ctx.expect(got2 == sorted(got + [self.after]), "saving after an earlier crash or full disk loses points",
                           before=len(got), after=len(got2))
                if at % 7 == 0 or kind == "kill":
                    loaded = TopologicalBatchAnalysis(os.path.join(d, ""))
                    n = [len(a.data["physical_error_rates"]) for a in loaded.analyses]
                    ctx.expect(n == [len(got2)], "after a crash the analysis does not load exactly the data file", loaded=n)
                ctx.case((self.tag, kind, at), sample={**detail, "exit": rc, "points_after": len(got)})
        finally:
            os.chdir(cwd)
            shutil.rmtree(d, ignore_errors=True)


def histories(ctx):
    """Random sessions in one directory against a model."""
    rng = ctx.rng
    specs = [("rot", (3, 3), 1), ("rot", (3, 5), 1), ("rot", (5, 3), 1), ("rot", (3, 3), 2), ("rot", (3, 3), 12),
             ("rep", (5, 1), 2), ("rep", (3, 1), 12), ("rot", (13, 3), 1), ("rot", (1, 33), 1), ("rot", (13, 3), 2),
             ("rep", (3, 1), 33), ("rep", (3, 1), 112), ("rep", (3, 1), 120), ("rep", (65, 1), 1), ("rep", (33, 1), 1)]
    for h in range(4):  # numbers of rounds and sizes that resemble each other
        with ctx.guard(part="names"):
            a, b = rng.randint(1, 99), 2 * rng.randint(1, 30) + 1
            near = {(a + k) for k in (0, 1, 2, 4, 8, 16, 32, 64, 10, 100, 256, 90)} | {int(f"1{a}"), int(f"{a}0")}
            many = [("rep", (3, 1), t) for t in sorted(near)] + [("rep", (b + k, 1), 1) for k in (2, 4, 8, 16, 32, 64, 128, 10, 100)]
            many += [("rot", (1, b), 1), ("rot", (b, 3), 1), ("rot", (3, b + 2), 1), ("rot", (11, 1), 1), ("rot", (1, 11), 1)]
            files = {}
            many = {s[1:]: s for s in many}.values()  # a repetition code and a surface code may be the same lattice
            for s in many:
                files.setdefault(bench(s).filename, []).append(s)
                ctx.case(("name", s))
            ctx.expect(len(files) == len(many), "two lattices or round numbers share a data file",
                       files={k: v for k, v in files.items() if len(v) > 1})
    for h in range(15 if ctx.quick else 80):
        d = tempfile.mkdtemp(prefix="hist", dir=os.getcwd())
        cwd = os.getcwd()
        os.chdir(d)
        try:
            model = {s: [] for s in specs}
            open_sessions = []
            names = {}
            with ctx.guard(history=h):
                for s in specs:
                    names.setdefault(bench(s).filename, []).append(s)
                ctx.expect(len(names) == len(specs), "two lattices or round numbers share a data file",
                           files={k: v for k, v in names.items() if len(v) > 1})
            for step in range(rng.randint(10, 60)):
                with ctx.guard(history=h, step=step):
                    r = rng.random()
                    if not open_sessions or r < 0.25:
                        s = rng.choice(specs)
                        open_sessions.append((s, bench(s)))
                        del open_sessions[:-4]
                    s, b = rng.choice(open_sessions)
                    if rng.random() < 0.25 and model[s]:  # the same physical rate, again
                        p = (rng.choice(model[s])[0], round(rng.random(), 6))
                    else:
                        p = new_point(rng, set())
                    b.append_data(*p)
                    model[s].append(p)
                    for t in ([s] if step % 5 else specs):
                        got = read(ctx, bench(t).filename, {})
                        ctx.expect(sorted(got) == sorted(model[t]), "the file does not hold exactly the points saved",
                                   spec=t, lost=[x for x in model[t] if x not in got][:4],
                                   foreign=[x for x in got if x not in model[t]][:4], have=len(got), want=len(model[t]))
                    ctx.case((h, step, p), sample={"history": h, "step": step, "spec": s, "point": p})
            with ctx.guard(history=h, part="analysis"):
                for s in specs:
                    if model[s]:
                        a = TopologicalAnalysis(bench(s).filename)
                        a.load_data()
                        got = sorted(zip(map(float, a.data["physical_error_rates"]), map(float, a.data["logical_error_rates"])))
                        ctx.expect(got == sorted(model[s]) and tuple(map(int, a.params["d"])) == s[1]
                                   and int(a.params["T"]) == s[2], "the analysis loads something else than was saved",
                                   spec=s, params=a.params)
                ctx.expect(sorted(f for f in os.listdir(".") if f.endswith(".npz")) == sorted(bench(s).filename for s in specs if model[s]),
                           "saving leaves other data files behind", files=sorted(os.listdir(".")))
            ctx.count("histories")
        finally:
            os.chdir(cwd)
            shutil.rmtree(d, ignore_errors=True)
        if ctx.out_of_time(0.95):
            return


class Kill:
    """Kills the process at the n-th decoding."""
    at = None

    def correct_readout(self, *a, **kw):
        if self.at is not None:
            self.at -= 1
            if self.at < 0:
                os._exit(77)
        return super().correct_readout(*a, **kw)


class Deadly(Kill, RepetitionDecoder):
    pass


class DeadlyRotated(Kill, RotatedDecoder):
    pass


def flip_noise(p):
    from qiskit.providers.aer.noise import NoiseModel
    from qiskit.providers.aer.noise.errors import pauli_error
    m = NoiseModel()
    if p > 0.2:
        m.add_all_qubit_quantum_error(pauli_error([("X", 1.0)]), "id")
    return m


def sweeps(ctx):
    """Sweeps that save, sessions after sessions, some of them killed between two points."""
    rng = ctx.rng
    for h in range(6 if ctx.quick else 25):
        d = tempfile.mkdtemp(prefix="sweep", dir=os.getcwd())
        cwd = os.getcwd()
        os.chdir(d)
        try:
            saved, used = [], set()
            kind, size, rounds = rng.choice([("rep", 3, 1), ("rep", 5, 2), ("rep", 7, 1), ("rep", 9, 3), ("rot", (3, 3), 1),
                                             ("rot", (3, 3), 2), ("rot", (3, 5), 1)])
            for k in range(4):
                mode = rng.choice(["sweep", "killed", "mp", "single", "resweep", "unsaved", "unsaved"])
                rates = sorted(new_point(rng, used)[0] for _ in range(rng.randint(2, 4)))
                if mode != "killed" and rng.random() < 0.4:  # the same point again is a point more
                    rates.append(rng.choice(rates))
                rng.shuffle(rates)
                shots = 20 if kind == "rep" else 1  # one decoding per point
                die = rng.randrange(len(rates)) if mode == "killed" else None

                def session():
                    q = (RepetitionQubit if kind == "rep" else XXZZQubit)({"d": size}, "t")
                    q.reset_z()
                    q.stabilize()
                    q.id_data()
                    for _ in range(rounds):
                        q.stabilize()
                    q.readout_z()
                    dec = (Deadly if kind == "rep" else DeadlyRotated)({"d": size, "T": rounds})
                    dec.at = die
                    bench(("rep", 11, 4) if h % 3 else ("rot", (5, 3), 4))  # another benchmark
                    b = TopologicalBenchmark(decoder=dec, circ=q.circ, noise_model_func=flip_noise)
                    bench(("rep", 13, 5))
                    if mode == "mp":
                        b.sweep_mp(rates, save_data=True, shots=shots)
                    elif mode == "single":
                        for p in rates:
                            b.single(p, save_data=True, shots=shots)
                    elif mode == "unsaved":  # long sweeps without saving, then points that are saved
                        b.sweep([0.01 * j for j in range(1, 8)], save_data=False, shots=5)
                        if h % 2:
                            b.sweep_mp([0.01 * j for j in range(1, 8)], save_data=False, shots=5)
                        b.single(0.05, save_data=False, shots=5)
                        for p in rates:
                            b.single(p, save_data=True, shots=shots)
                    elif mode == "resweep":
                        b.sweep(rates[:1], save_data=True, shots=shots)
                        b.sweep(rates[1:], save_data=True, shots=shots)
                    else:
                        b.sweep(rates, save_data=True, shots=shots)

                with ctx.guard(sweeps=h, session=k, size=size, T=rounds, mode=mode, rates=rates, die=die):
                    rc = child(ctx, session, 200)
                    ctx.expect(rc == (77 if mode == "killed" else 0), "a sweep that saves failed", exit=rc, error=error_text())
                    files = [f for f in os.listdir(".") if f.endswith(".npz")]
                    got = read(ctx, files[0], {}) if files else []
                    if got:
                        an = TopologicalAnalysis(files[0])
                        an.load_data()
                        dims = tuple(size) if kind == "rot" else (size, 1)
                        ctx.expect(len(files) == 1 and tuple(an.params["d"]) == dims and an.params["T"] == rounds,
                                   "a sweep was not saved as one of its size and rounds", files=files, params=an.params)
                    if mode == "killed":  # one decoding per point, so `die` points were finished
                        new = [x for x in got if x not in saved]
                        ctx.expect(len(new) == die and {x[0] for x in new} <= set(rates) and all(x in got for x in saved),
                                   "a killed sweep lost points saved before", found=got, saved=saved)
                        saved = got
                    else:
                        saved = sorted(saved + [(p, float(p > 0.2)) for p in rates])
                    ctx.expect(got == saved, "sweeps that save do not leave exactly their points", found=got, expected=saved)
                    ctx.case(("sweeps", h, k, kind, size, rounds, mode, tuple(rates)))
                    ctx.count("session_" + mode)
        finally:
            os.chdir(cwd)
            shutil.rmtree(d, ignore_errors=True)
        if ctx.out_of_time(0.97):
            return


def run(ctx):
    if not INSTALLED:
        sys.addaudithook(hook)
        INSTALLED.append(1)
    rng = ctx.rng
    tmp = tempfile.mkdtemp(prefix="c17")
    cwd = os.getcwd()
    os.chdir(tmp)
    try:
        scen = [(("rot", (3, 3), 1), 0), (("rot", (3, 5), 2), 1), (("rep", (5, 1), 1), 7), (("rot", (5, 5), 3), 700), (("rep", (7, 1), 2), 5000)]
        for n, (spec, pts) in enumerate(scen):
            sc = Scenario(ctx, spec, pts, f"{n}")
            events = sc.points("kill")
            for at in range(1, events + 2):
                sc.fault("kill", at)
            for at in range(1, sc.points("fail") + 1):
                sc.fault("fail", at)
            for at in range(5 * sc.points("unreadable")):
                sc.fault("unreadable", at)
            ctx.assumptions[:] = [f"file-system events of one save: {' '.join(sc.events)}"]
            size = os.path.getsize(os.path.join(sc.base, sc.name)) if pts else 900
            top = size + 300
            cuts = sorted({0, 1, size - 1, size, size + 1, top} | {rng.randrange(top) for _ in range(30 if ctx.quick else 250)})
            for at in cuts:
                if at >= 0:
                    sc.fault("full", at)
                    sc.fault("cut", at)
            lines = sc.points("line")
            ctx.count("lines_of_a_save", lines)
            pick = rng.sample(range(1, lines + 1), min(lines, 60)) if ctx.quick else rng.sample(range(1, lines + 2), lines + 1)
            for at in pick:
                sc.fault("line", at)
                if ctx.out_of_time((n + 1) * (0.12 if ctx.quick else 0.15)):
                    break
        histories(ctx)
        sweeps(ctx)
    finally:
        os.chdir(cwd)
        shutil.rmtree(tmp, ignore_errors=True)
