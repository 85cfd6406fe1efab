"""C24: the whole pipeline (encoder circuit, simulator with noise on identity gates, benchmark, decoder) runs end to end.
The logical failures counted are compared with the exact failure probability, which is computed from the code geometry
(distribution over all hits and flips by convolution, decoded by independent oracles; binomial sums for repetition
codes), and with each other across code sizes. Only deviations with a probability below 1e-9 are violations."""
import contextlib
import io
import math
import os
import shutil
import tempfile

from qiskit import Aer
from qiskit.providers.aer.noise import NoiseModel
from qiskit.providers.aer.noise.errors import pauli_error
from qtcodes import TopologicalBenchmark
from scipy.stats import binom

from mon import oracle
from mon.codes import Code, decoder_keys, family, make, make_decoder

META = dict(rule="one evaluation = one (code, rounds, basis, physical rate) simulated, decoded and compared; distinct by "
                 "that; non-trivial: logical failures were possible", min_nontrivial=10)

ALPHA = 1e-9


def noise(p, kinds="XZ"):
    m = NoiseModel()
    if p:
        m.add_all_qubit_quantum_error(pauli_error([(k, p) for k in kinds] + [("I", 1 - p * len(kinds))]), "id")
    return m


def circuit(code, basis, T, readout, value):
    q = make(code)
    b = basis.lower()
    getattr(q, "reset_" + b)()
    if value:
        (q.x if basis == "Z" else q.z)()
    lattice = readout == "lattice"
    if not lattice:
        q.stabilize()
        for _ in range(T):
            q.id_data()
            q.stabilize()
        getattr(q, "readout_" + b)()
    else:
        for _ in range(T):
            q.stabilize()
            q.id_data()
        getattr(q, "lattice_readout_" + b)()
    return q.circ


def failures(ctx, code, basis, T, readout, value, p, shots, weight, kinds="XZ"):
    """Run and decode; number of logical failures."""
    circ = circuit(code, basis, T, readout, value)
    dec = make_decoder(code, T)
    ctx.count("shots", shots)
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        if basis == "Z":
            b = TopologicalBenchmark(decoder=dec, circ=circ, noise_model_func=lambda x: noise(x, kinds),
                                     correct_logical_value=value)
            how = ctx.rng.random() if weight else 0
            if how < 0.7:
                b.sweep([p], save_data=False, shots=shots, deg_weight=weight)
                rate = float(b.data["logical_error_rates"][0])
            else:
                rate = float(b.single(p, save_data=False, shots=shots))
            return round(rate * shots)
        counts = Aer.get_backend("aer_simulator").run(circ, noise_model=noise(p, kinds), shots=shots).result().get_counts()
        return sum(c for s, c in counts.items()
                   if dec.correct_readout(s, basis, err_prob=p if weight else None) != value)


def distribution(code, basis, T, p):
    """Exact probability of every (hits, flip) with T slots of independent data noise."""
    ns = len(code.pl[basis])
    dist = {(0, 0): 1.0}
    for t in range(T):
        for k in range(code.n):
            e = [(k, code.basis_err(basis, k))]
            m = sum(1 << (t * ns + i) for i in code.hits_of(basis, e))
            f = code.flips_logical(basis, e)
            new = {}
            for (h, g), w in dist.items():
                new[h, g] = new.get((h, g), 0) + w * (1 - p)
                new[h ^ m, g ^ f] = new.get((h ^ m, g ^ f), 0) + w * p
            dist = new
    return dist


def exact(code, basis, T, p, weight):
    """(lowest, highest) logical failure probability of minimum weight decoding; they differ by ties."""
    pos = [q for q, _ in code.pl[basis]]
    lo = hi = 0.0
    cache = {}
    for (h, f), w in distribution(code, basis, T, p).items():
        if h not in cache:
            hits = [(i // len(pos),) + pos[i % len(pos)] for i in range(len(pos) * T) if h >> i & 1]
            if not hits:
                cache[h] = (0, 1)
            elif weight:
                cache[h] = oracle.weighted_minima(code.dh, code.dw, basis, T, hits, p)
            else:
                cache[h] = oracle.class_minima(code.dh, code.dw, basis, T, hits)
        a, b = cache[h]
        if abs(a - b) < 0.01:
            hi += w
        elif (a > b) == (f == 0):
            lo += w
            hi += w
    return lo, hi


def judge(ctx, k, shots, lo, hi, what, **d):
    d.update(failures=k, shots=shots, expected_lowest=lo, expected_highest=hi)
    ctx.expect(binom.sf(k - 1, shots, min(hi, 1.0)) > ALPHA, f"more logical failures than {what} allows", **d)
    ctx.expect(binom.cdf(k, shots, max(lo, 0.0)) > ALPHA, f"fewer logical failures than {what} allows", **d)


def repetition(ctx):
    rng = ctx.rng
    ds = [3, 5, 7, 9, 15, 21]
    for d in ds:
        for kind in ("REP", "REPP"):
            code = Code(kind, d, 1) if kind == "REP" else Code(kind, 1, d)
            basis = decoder_keys(code)
            for p in rng.sample([0.02, 0.05, 0.1, 0.2, 0.3, 0.4, 0.45], 2 if ctx.quick else 5):
                weight, value, readout = rng.random() < 0.5, rng.randrange(2), rng.choice(["ancilla", "lattice"])
                shots = 3000 if ctx.quick else 30000
                case = dict(code=repr(code), T=1, basis=basis, p=p, weight=weight, value=value, readout=readout)
                with ctx.guard(**case):
                    k = failures(ctx, code, basis, 1, readout, value, p, shots, weight, "X" if kind == "REP" else "Z")
                    want = sum(math.comb(d, i) * p ** i * (1 - p) ** (d - i) for i in range((d + 1) // 2, d + 1))
                    judge(ctx, k, shots, want, want, "the binomial theory", **case)
                    ctx.case(str(case), sample=dict(case, failures=k, shots=shots, theory=want))
                    ctx.count("repetition")
            if ctx.out_of_time(0.25):
                break


def exact_cases(ctx):
    rng = ctx.rng
    cases = [(Code(k, a, b), T) for k in ("XXZZ", "XZZX") for a, b, T in
             ((3, 3, 1), (3, 3, 2), (3, 3, 3), (3, 5, 1), (5, 3, 1), (1, 5, 1), (5, 1, 2), (5, 5, 1), (3, 1, 3))]
    cases += [(Code("REP", 3, 1), 3), (Code("REPP", 1, 3), 4), (Code("REP", 5, 1), 2), (Code("REP", 5, 1), 3)]
    rng.shuffle(cases)
    for rep in range(1 if ctx.quick else 6):
        for code, T in cases:
            basis = rng.choice(decoder_keys(code))
            if not code.pl[basis]:
                continue
            p = rng.choice([0.02, 0.05, 0.08, 0.12])
            size = len(code.pl[basis]) * T
            weight = rng.random() < 0.6 and size <= 8
            value, readout = rng.randrange(2), rng.choice(["ancilla", "lattice"])
            shots = 4000 if ctx.quick else 40000
            case = dict(code=repr(code), T=T, basis=basis, p=p, weight=weight, value=value, readout=readout)
            with ctx.guard(**case):
                k = failures(ctx, code, basis, T, readout, value, p, shots, weight)
                lo, hi = exact(code, basis, T, p, weight)
                judge(ctx, k, shots, lo, hi, "minimum weight decoding of the exact noise", **case)
                ctx.case(str(case), sample=dict(case, failures=k, shots=shots, lowest=lo, highest=hi))
                ctx.count("exact")
            if ctx.out_of_time(0.6):
                break


def threshold(ctx):
    """Sizes and rates whose failure rates are so far apart that chance cannot swap them."""
    rng = ctx.rng
    runs = [(k, b) for k in ("XXZZ", "XZZX") for b in "XZ"]
    rng.shuffle(runs)
    p, shots = 0.03, 16384
    if ctx.quick:
        runs = [next(r for r in runs if r[0] == k) for k in rng.sample(["XXZZ", "XZZX"], 2)]
    for i, (kind, basis) in enumerate(runs):
        readout, weight = rng.choice(["ancilla", "lattice"]), rng.random() < 0.7
        out = []
        for d in (3, 5, 7):
            with ctx.guard(kind=kind, d=d, basis=basis, p=p, readout=readout, weight=weight):
                k = failures(ctx, Code(kind, d, d), basis, 1, readout, rng.randrange(2), p, shots, weight)
                out.append(k)
                detail = dict(failures={3 + 2 * j: x for j, x in enumerate(out)}, shots=shots)
                ctx.expect(binom.cdf(k, shots, p) < 1e-3, "the logical failure rate below threshold is not below the "
                           "physical rate", **detail)
                if len(out) > 1:
                    ctx.expect(out[-1] < out[-2], "a larger code below threshold fails more often", **detail)
                ctx.case((kind, d, basis, readout, weight, p), sample=dict(kind=kind, d=d, basis=basis, p=p, failures=k,
                                                                         shots=shots))
                ctx.count("threshold")
        if ctx.out_of_time(0.9):
            break


def noiseless(ctx):
    rng = ctx.rng
    codes = family(9) + [Code(k, a, b) for k in ("XXZZ", "XZZX") for a, b in ((5, 5), (3, 7), (7, 1), (5, 3))]
    codes += [Code("REP", 21, 1), Code("REPP", 1, 21)]
    rng.shuffle(codes)
    for code in codes:
        for basis in decoder_keys(code):
            T = rng.choice([1, 1, 2, 3, 5])
            readout, value, weight = rng.choice(["ancilla", "lattice"]), rng.randrange(2), rng.random() < 0.5
            shots = 200
            case = dict(code=repr(code), T=T, basis=basis, value=value, readout=readout, noise=0)
            with ctx.guard(**case):
                k = failures(ctx, code, basis, T, readout, value, 0.0, shots, weight)
                ctx.expect(k == 0, "logical failures without noise", failures=k, shots=shots)
                ctx.case(str(case), nontrivial=False)
                ctx.count("noiseless")
        if ctx.out_of_time(0.75):
            break


def run(ctx):
    tmp = tempfile.mkdtemp(prefix="c24")
    cwd = os.getcwd()
    os.chdir(tmp)
    try:
        repetition(ctx)
        exact_cases(ctx)
        noiseless(ctx)
        threshold(ctx)
    finally:
        os.chdir(cwd)
        shutil.rmtree(tmp, ignore_errors=True)
