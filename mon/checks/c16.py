"""C16: sweeps run on the simulator with deterministic noise: every physical rate flips its own set of data qubits, so
that its readout string and logical error rate are known. A recording decoder and benchmark (log file shared by all
processes) show which readouts were rated with which probability and how many shots."""
import contextlib
import hashlib
import io
import json
import os
import shutil
import signal
import tempfile

from qiskit.providers.aer.noise import NoiseModel
from qiskit.providers.aer.noise.errors import pauli_error
from qtcodes import RepetitionDecoder, RepetitionQubit, TopologicalBenchmark

from mon.report import Violation

META = dict(rule="one evaluation = one point of one sweep compared; non-trivial: sweeps of two or more points with "
                 "different logical rates; distinct by (sweep, rate)", min_nontrivial=60)

D = 5  # set by build: some circuits have more qubits than the simulator's state vectors
T = 1  # set by build
WHERE = []  # set by build: the data qubits' places in the circuit
SALT = os.environ.get("QT_C16_SALT", "0")


def pattern(p):
    """The set of data qubits that the noise of rate p flips, and whether one more flips at random."""
    h = hashlib.sha256(f"{SALT}/{float(p):.9f}".encode()).digest()
    return [k for k in range(D) if int.from_bytes(h[2:10], "big") >> k & 1], h[1] < 60


def noise(p):
    """Noise model for rate p: deterministic X on the identities of pattern(p)."""
    record({"noise": float(p)})
    flips, coin = pattern(p)
    m = NoiseModel()
    for k in range(D):
        if coin and k == 0:
            m.add_quantum_error(pauli_error([("X", 0.5), ("I", 0.5)]), "id", [WHERE[k]])
        elif k in flips:
            m.add_quantum_error(pauli_error([("X", 1.0)]), "id", [WHERE[k]])
    m.add_basis_gates(["unitary"])
    return m


def outcomes(p):
    """{readout string: logical error} possible at rate p."""
    flips, coin = pattern(p)
    out = {}
    for extra in ((0, 1) if coin else (None,)):
        s = set(flips)
        if extra is not None:
            s.discard(0)
            if extra:
                s.add(0)
        bits = [int(k in s) for k in range(D)]
        syn = "".join(str(bits[k] ^ bits[k + 1]) for k in reversed(range(D - 1)))
        out[" ".join([str(bits[0])] + [syn] * T + ["0" * (D - 1)])] = int(2 * sum(bits) > D)
    return out


LOG = None
LAST = {}  # the benchmark that swept last and what it found


def record(entry):
    if LOG:
        fd = os.open(LOG, os.O_WRONLY | os.O_APPEND | os.O_CREAT)
        os.write(fd, (json.dumps({"pid": os.getpid(), **entry}) + "\n").encode())
        os.close(fd)


class Recorder(RepetitionDecoder):
    def correct_readout(self, *a, **kw):
        r = super().correct_readout(*a, **kw)
        args = dict(zip(("syndromes", "logical_readout_type", "logical_qubit_value", "err_prob"), a), **kw)
        record({"string": args.get("syndromes") if isinstance(args.get("syndromes"), str) else None,
                "err_prob": None if args.get("err_prob") is None else float(args["err_prob"]), "value": int(r)})
        return r


class Bench(TopologicalBenchmark):
    def logical_error_rate(self, *a, **kw):
        r = super().logical_error_rate(*a, **kw)
        counts = a[0] if a else kw.get("readout_strings")
        record({"rated": {k: int(v) for k, v in counts.items()}, "rate": float(r)})
        return r


@contextlib.contextmanager
def limit(seconds):
    def stop(*_):
        raise Violation(f"a sweep did not finish within {seconds} s")

    old = signal.signal(signal.SIGALRM, stop)
    signal.alarm(seconds)
    try:
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            yield
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)


def build(correct=0, d=5, rounds=1):
    global D, T, WHERE
    D, T = d, rounds
    q = RepetitionQubit({"d": D}, "t")
    WHERE = [q.circ.find_bit(x).index for x in q.lattice.qregisters["data"]]
    q.reset_z()
    q.stabilize()
    q.id_data()
    for _ in range(T):
        q.stabilize()
    q.readout_z()
    return Bench(decoder=Recorder({"d": D, "T": T}), circ=q.circ, noise_model_func=noise, correct_logical_value=correct)


def take_log():
    out = []
    if os.path.exists(LOG):
        out = [json.loads(l) for l in open(LOG)]
        os.unlink(LOG)
    return out


def judge(ctx, log, rates, values, shots, weight, correct, detail):
    """values[i] was reported for rates[i]."""
    rated = [e for e in log if "rated" in e]
    for p, v in zip(rates, values):
        outs = outcomes(p)
        errs = {e ^ correct for e in outs.values()}
        d = {"rate": p, "logical": v, "all": detail}
        if errs == {0}:
            ctx.expect(v == 0, "a rate whose noise makes no logical error got a logical error rate", **d)
        elif errs == {1}:
            ctx.expect(v == 1, "a rate whose noise always makes a logical error got another logical error rate", **d)
        else:
            ctx.expect(abs(v * shots - round(v * shots)) < 1e-6 and 0 <= v <= 1, "the logical error rate is no multiple "
                       "of 1/shots", shots_=shots, **d)
            if shots >= 200:
                ctx.expect(abs(v - 0.5) < 0.42, "logical error rate does not fit the noise of its rate", **d)
            ctx.count("random_points")
        mine = [e for e in rated if set(e["rated"]) <= set(outs)]
        if rated:
            ctx.expect(mine, "no readouts from the noise model of this rate were rated", **d)
            ctx.expect(all(sum(e["rated"].values()) == shots for e in mine), "not the requested number of shots",
                       shots_=shots, got=[sum(e["rated"].values()) for e in mine], **d)
            ctx.expect(any(abs(e["rate"] - v) < 1e-12 for e in mine), "the logical error rate reported is not the one "
                       "measured for this physical rate", measured=[e["rate"] for e in mine], **d)
    # each decoding with the probability of the noise that made its readout
    decs = [e for e in log if "value" in e and e["string"]]
    by = {}
    for p in set(rates):
        for s in outcomes(p):
            by.setdefault(s, set()).add(float(p))
    for e in decs:
        ctx.expect(e["string"] in by, "a readout was decoded that no requested noise makes", readout=e["string"], **detail)
        ok = e["err_prob"] in by[e["string"]] if weight else e["err_prob"] is None
        ctx.expect(ok, "decoder weighted with another rate than the noise's" if weight else
                   "decoder weighted though weighting is off", readout=e["string"], err_prob=e["err_prob"],
                   expected=sorted(by[e["string"]]) if weight else None, **detail)
    ctx.count("decodings", len(decs))
    ctx.count("processes", len({e["pid"] for e in log}))


def pick_rates(rng, n):
    rates = [0.0] if n and rng.random() < 0.15 else []
    while len(rates) < n:
        p = round(rng.uniform(0.001, 0.4), rng.choice([2, 3, 5])) or 0.01
        if p not in rates:
            rates.append(p)
    if n > 1 and rng.random() < 0.3:  # some rates several times
        rates += rng.choices(rates, k=rng.randint(1, 3))
    rng.shuffle(rates)
    return rates


def sweep(ctx, b, correct, k, mode):
    rng = ctx.rng
    rates = pick_rates(rng, (160 if k[1] == "serial" else 70) if k[0] == 5 else rng.choice([1, 2, 4, 6]) if rng.random() < 0.94 else 0)
    arg = list(rates)  # as declared: List[float]
    if rng.random() < 0.15 and len(rates) < 9:
        arg, rates = None, [0.04, 0.07, 0.10, 0.13, 0.16]
    keep = None if arg is None else list(arg)
    shots = rng.choice([1, 7, 20, 300] if len(rates) < 100 else [1, 2])
    many = 1 < len(rates) < 4 and D <= 5 and rng.random() < 0.5 and \
        ctx.counters.get("sweeps_of_many_shots", 0) < (6 if ctx.quick else 40)
    if many:
        shots = rng.choice([4500, 17001, 17001, 33000])
        ctx.count("sweeps_of_many_shots")
    weight = True if mode == "mp" else rng.random() < 0.6
    save = rng.random() < (0.8 if many else 0.4)
    detail = dict(sweep=k, mode=mode, rates=rates, shots=shots, weight=weight, save=save, correct=correct)
    before = set(os.listdir("."))
    with ctx.guard(**detail):
        with limit(150):
            if mode == "mp":
                b.sweep_mp(physical_error_rates=arg, save_data=save, shots=shots)
            else:
                kw = {} if weight and rng.random() < 0.5 else {"deg_weight": weight}
                b.sweep(physical_error_rates=arg, save_data=save, shots=shots, **kw)
        if arg is not None:
            ctx.expect(list(arg) == keep, "the list of rates passed in was changed", before=keep, after=list(arg))
        xs = [float(x) for x in b.data["physical_error_rates"]]
        ys = [float(y) for y in b.data["logical_error_rates"]]
        ctx.expect(len(xs) == len(ys), "physical and logical rates are not aligned", physical=xs, logical=ys)
        ctx.expect(xs == sorted(float(r) for r in rates), "the data does not hold exactly the requested rates in order",
                   physical=xs)
        judge(ctx, take_log(), xs, ys, shots, weight, correct, dict(physical=xs, logical=ys))
        new = set(os.listdir(".")) - before - {os.path.basename(LOG)}
        if not save:
            ctx.expect(not new, "a sweep without saving wrote files", files=sorted(new))
        for x, y in zip(xs, ys):
            ctx.case((k, mode, x), nontrivial=len(set(ys)) > 1,
                     sample={**detail, "physical": xs, "logical": ys})
        ctx.count(mode)
        old = LAST.get("bench")
        if old is not None and old is not b:
            now = [[float(x) for x in old.data[key]] for key in ("physical_error_rates", "logical_error_rates")]
            ctx.expect(now == LAST["data"], "a sweep of one benchmark changed the data of another", before=LAST["data"], after=now)
        LAST.update(bench=b, data=[xs, ys])
    return dict(zip(xs, ys))


def single(ctx, b, correct, k):
    rng = ctx.rng
    p = pick_rates(rng, 1)[0]
    shots = rng.choice([1, 9, 300])
    with ctx.guard(single=k, rate=p, shots=shots):
        with limit(100):
            v = b.single(p, save_data=rng.random() < 0.3, shots=shots)
        judge(ctx, take_log(), [p], [float(v)], shots, True, correct, {})
        ctx.case((k, "single", p), nontrivial=False)
        ctx.count("single")


def run(ctx):
    global LOG, SALT
    rng = ctx.rng
    SALT = str(rng.random())
    tmp = tempfile.mkdtemp(prefix="c16")
    cwd = os.getcwd()
    os.chdir(tmp)
    LOG = os.path.join(tmp, "log.jsonl")
    try:
        n = 200 if ctx.quick else 1500
        for k in range(n):
            ctx.count("benchmarks")
            correct = rng.randrange(2)
            b = build(correct, 5 if k % 4 else rng.choice([3, 9, 25]), rng.choice([1, 1, 2, 6]))
            for step in range(rng.randint(1, 3)):
                r = rng.random()
                if r < 0.55:
                    sweep(ctx, b, correct, (k, step), "serial")
                elif r < 0.75:
                    sweep(ctx, b, correct, (k, step), "mp")
                else:
                    single(ctx, b, correct, (k, step))
            if ctx.out_of_time(0.9):
                break
        sweep(ctx, build(0, 9), 0, (5, "serial"), "serial")
        sweep(ctx, build(1, 9), 1, (5, "mp"), "mp")
        while ctx.counters.get("mp", 0) < 3:
            sweep(ctx, build(0), 0, ("mp", ctx.counters.get("mp", 0)), "mp")
    finally:
        os.chdir(cwd)
        LOG = None
        shutil.rmtree(tmp, ignore_errors=True)
