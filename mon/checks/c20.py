"""C20: a Pauli fault is injected after every instruction of the executing rounds (one and two qubit faults, measurement
and reset faults) and the real parser reports what each fault changes. A shortest-path search over these observations
finds the lightest fault set that flips the readout without a hit; it is executed again as a whole. Random fault sets
lighter than the distance are executed as well, and single faults are decoded."""
import itertools

from mon.codes import Code, Decoders
from mon.common import data_of
from mon.faults import Run, min_weight_logical

META = dict(rule="one evaluation = one set of circuit faults executed and parsed; non-trivial: the set is not empty; "
                 "distinct by (code, rounds, readout basis, encoded value, fault set)", min_nontrivial=5000)

PAIRS = [(a, b) for a in "XYZ" for b in "XYZ"]


def circuit_faults(run):
    """Every elementary fault after the first round and before the final readout, as [(event, qubit, pauli), ...]."""
    lo, hi = run.gap[1], run.gap[run.rounds]
    out = []
    for k in range(run.code.n):
        out += [[(lo, run.data[k], p)] for p in "XYZ"]  # idle faults between the rounds
    for i in range(lo + 1, hi + 1):
        e = run.ev[i]
        for q in e.q:
            out += [[(i, q, p)] for p in "XYZ"]
        if len(e.q) == 2:
            out += [[(i, e.q[0], a), (i, e.q[1], b)] for a, b in PAIRS]
        if e.op == "measure":
            out.append([(i, e.q[0], "M")])
    return out


def name(run, f):
    return [f"{p} after #{i} {run.ev[i]} on {q}" for i, q, p in f]


def one(ctx, code, basis, rounds, flip, decode, rand):
    with ctx.guard(code=repr(code), basis=basis, rounds=rounds, encoded=int(flip)):
        run = Run(code, basis, rounds, "lattice", ctx.rng, flip)
        dec = ctx.decs.of(code, rounds)
        d = code.distance(basis)
        key = (repr(code), basis, rounds, flip)
        faults = circuit_faults(run)
        cache = {}

        def observe(sets):
            res = []
            for s in run.execute(sets):
                if s not in cache:
                    v, hits = dec.parse_readout(s, basis)
                    cache[s] = (frozenset(tuple(h) for h in hits[basis]), int(v) != run.expected)
                res.append((s,) + cache[s])
            return res

        s0, h0, f0 = observe([[]])[0]
        ctx.expect(not h0 and not f0, "hits or a flipped readout without any fault", string=s0)
        cols = {}
        for f, (s, hits, flips) in zip(faults, observe(faults)):
            ctx.expect(len(hits) <= 2, "a single circuit fault makes more than two hits of the readout's basis",
                       fault=name(run, f), hits=sorted(hits), string=s)
            if (hits or flips) and (hits, flips) not in cols:
                cols[hits, flips] = (tuple(f), hits, flips)
            ctx.case(key + (tuple(f),), sample={"code": repr(code), "basis": basis, "rounds": rounds,
                                                "fault": name(run, f), "hits": sorted(hits), "flips": flips})
            ctx.count("faults")
        if decode:
            done = {}
            for f, (s, hits, flips) in zip(faults, observe(faults)):
                if s not in done:
                    done[s] = dec.correct_readout(s, basis)
                    ctx.count("decodings")
                ctx.expect(done[s] == run.expected, "a single circuit fault is decoded wrongly", fault=name(run, f),
                           string=s, hits=sorted(hits), decoded=done[s])
        ctx.count("distinct_effects", len(cols))
        w, path = min_weight_logical(list(cols.values()), d)
        ctx.expect(w is not None or d == 1, "no set of faults can flip the readout: the injection reaches nothing")
        if w is not None:
            whole = [x for f, _, _ in path for x in f]
            s, hits, flips = observe([whole])[0]
            ctx.expect(flips and not hits, "the lightest undetected set, executed as a whole, is detected: faults do not "
                       "combine linearly", faults=[name(run, f) for f, _, _ in path], string=s) \
                if w < d else None
            ctx.expect(w >= d, "fewer circuit faults than the distance flip the readout undetected", weight=w, distance=d,
                       faults=[name(run, f) for f, _, _ in path], string=s)
            ctx.count("lightest_logical_weights", w)
        sets = []
        cols = list(cols.values())
        for _ in range(rand):
            m = ctx.rng.randint(1, max(1, d - 1))
            if ctx.rng.random() < 0.5 or not cols:
                sets.append([x for f in ctx.rng.sample(faults, min(m, len(faults))) for x in f])
            else:
                sets.append(walk_set(ctx.rng, cols, m))
        for fs, (s, hits, flips) in zip(sets, observe(sets)):
            if d > 1:
                ctx.expect(hits or not flips, "fewer circuit faults than the distance flip the readout undetected",
                           faults=name(run, fs), string=s, distance=d)
            ctx.case(key + (tuple(fs),))
            ctx.count("random_sets")
        ctx.count("configurations")


def walk_set(rng, cols, m):
    """Faults chosen to cancel each other's hits: a random chain through the observed effects."""
    first = rng.choice(cols)
    out, hits = list(first[0]), set(first[1])
    for _ in range(m - 1):
        near = [c for c in rng.sample(cols, min(60, len(cols))) if hits & c[1]]
        c = rng.choice(near or cols)
        out += c[0]
        hits ^= c[1]
    return out


def run(ctx):
    ctx.decs = Decoders(ctx.rng)
    rng = ctx.rng
    sizes = [(3, 3), (5, 5), (3, 5), (5, 3), (1, 5), (5, 1), (7, 3), (3, 7), (5, 7)]
    sizes += [(7, 7), (13, 3), (3, 13)]
    if not ctx.quick:
        sizes += [(7, 5), (1, 9), (9, 1), (9, 3), (3, 11), (9, 5), (5, 9), (9, 9), (5, 17), (21, 3), (11, 11)]
    for dh, dw in ctx.order(sizes):
        for kind in ctx.order(["XXZZ", "XZZX"]):
            code = Code(kind, dh, dw)
            for basis in "XZ":
                for rounds in ((2, 4) if ctx.quick else (2, 3, 4, 5)):
                    if dh * dw > 38 and rounds > (2 if dh * dw > 100 else 3):
                        continue
                    flips = (rng.random() < 0.5,) if ctx.quick else (False, True)
                    for flip in flips:
                        one(ctx, code, basis, rounds, flip, min(dh, dw) >= 5, 120 if ctx.quick else 400)
                        if ctx.out_of_time(0.95):
                            return
