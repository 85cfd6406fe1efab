"""C15: generated dictionaries of counts go through the real benchmark with the real decoder (a recording subclass) or
with scripted decoders; the rate is recomputed exactly from the counts and the individual decodings."""
from fractions import Fraction

from numpy import int64
from qiskit.result import Counts
from qtcodes import RepetitionDecoder, RotatedDecoder, TopologicalBenchmark

from mon.checks.c10 import nodes_of, random_hits, string_of
from mon.codes import Code, make, make_decoder
from mon.report import Inconclusive

META = dict(rule="one evaluation = one dictionary of counts rated; non-trivial: rate strictly between 0 and 1; distinct "
                 "by (code, counts, correct value, p)", min_nontrivial=200)


def recording(cls):
    class Recorder(cls):
        """Real decoder that logs every call."""
        log = None

        def correct_readout(self, *a, **kw):
            r = super().correct_readout(*a, **kw)
            if self.log is not None:
                self.log.append((a, dict(kw), r))
            return r

    Recorder.__name__ = cls.__name__
    return Recorder


class Scripted:
    """Decoder with answers laid down by the monitor."""

    def __init__(self, params, script):
        self.params, self.script, self.calls = params, script, []

    def correct_readout(self, syndromes, logical_readout_type, logical_qubit_value=None, err_prob=None):
        if not isinstance(syndromes, str) or syndromes not in self.script:
            raise Inconclusive("the benchmark does not hand readout strings to the decoder")
        self.calls.append((syndromes, logical_readout_type, err_prob))
        return self.script[syndromes]


def make_counts(rng, code, T, n, lattice):
    nodes = nodes_of(code, "Z", T)
    out = {}
    for _ in range(n):
        hits = [tuple(h) for h in random_hits(rng, code, "Z", T, nodes, 5)] if nodes and rng.random() < 0.8 else []
        s = string_of(code, "Z", T, hits, rng.randrange(2), rng)
        if lattice:
            s = "".join(rng.choice("01") for _ in range(code.n)) + " " + s.split(" ", 2)[2] if T >= 1 else s
        hi = rng.choice([1, 10, 1000, 10 ** 6])
        out[s] = rng.randint(0 if rng.random() < 0.05 else 1, hi)
    if sum(out.values()) == 0:
        out[next(iter(out))] = 3
    return out


def mixed(rng, counts, other):
    """Readouts of both kinds in one dictionary, also pairs of the same bits that are only spaced differently."""
    out = dict(counts)
    for s, c in list(counts.items()):
        first, *rest = s.split(" ")
        if len(first) == 1 and rest[1:] and rng.random() < 0.5:
            out[" ".join([first + rest[0]] + rest[1:])] = rng.choice([1, 7, c or 1, 1000])
    out.update(rng.sample(sorted(other.items()), min(len(other), 3)))
    return out


def rate(counts, decode, correct):
    bad = sum(int(c) for s, c in counts.items() if decode(s) != correct)
    return Fraction(bad, sum(map(int, counts.values())))


def close(a, b):
    return abs(float(a) - float(b)) <= 1e-12 * max(1.0, float(b))


def run(ctx):
    rng = ctx.rng
    specs = [("XXZZ", 3, 3, 1), ("XXZZ", 3, 3, 2), ("XZZX", 3, 5, 2), ("REP", 5, 1, 2), ("XXZZ", 5, 5, 1), ("REP", 3, 1, 1)]
    large = [("XXZZ", 7, 7, 3), ("XZZX", 9, 9, 2), ("REP", 21, 1, 10), ("XXZZ", 3, 11, 4), ("REP", 101, 1, 1)]
    reps = 120 if ctx.quick else 200
    for rep in range(reps):
        for kind, dh, dw, T in ctx.order(specs) + (rng.sample(large, 1) if rep % 5 == 0 else []):
            code = Code(kind, dh, dw)
            lattice = rng.random() < 0.3
            with ctx.guard(code=repr(code), T=T):
                cls = recording(RepetitionDecoder if kind == "REP" else RotatedDecoder)
                dec = cls({**code.params(), "T": T})
                ref = make_decoder(code, T)
                correct = rng.randrange(2)
                b = TopologicalBenchmark(decoder=dec, circ=make(code).circ, correct_logical_value=correct)
                p = rng.choice([None, None, 0.01, 0.1, 0.3])
                counts = make_counts(rng, code, T, rng.choice([1, 2, 6, 15, 40]), lattice)
                if not lattice and rng.random() < 0.3:
                    counts = mixed(rng, counts, make_counts(rng, code, T, 4, True))
                    ctx.count("both_kinds_of_readout")
                values = {s: int(ref.correct_readout(s, "Z", err_prob=p)) for s in counts}
                want = rate(counts, values.get, correct)
                dec.log = []
                keep = dict(counts)
                kw = {} if p is None and rng.random() < 0.5 else {"err_prob": p}
                got = b.logical_error_rate(counts, **kw)
                detail = dict(counts=counts, correct=correct, p=p, expected=want, got=got)
                ctx.expect(close(got, want), "logical error rate differs from the share of wrong decodings", **detail)
                ctx.expect(counts == keep, "the counts passed in were modified", before=keep, **detail)
                # what was really decoded, and with which probability
                asked = []
                for a, k, r in dec.log:
                    args = dict(zip(("syndromes", "logical_readout_type", "logical_qubit_value", "err_prob"), a), **k)
                    asked.append((args.get("syndromes"), args.get("logical_readout_type"), args.get("err_prob")))
                if asked and all(isinstance(x[0], str) for x in asked):
                    need = {s for s, c in counts.items() if c}
                    ctx.expect(need <= {x[0] for x in asked} <= set(counts), "not exactly the readouts of the counts "
                               "were decoded", asked=asked[:5], **detail)
                    ctx.expect(all(x[1] == "Z" for x in asked), "decoded in another basis than Z", asked=asked[:5],
                               **detail)
                    ctx.expect(all(x[2] == p for x in asked), "the error probability was not applied to every decoding",
                               asked=asked[:5], **detail)
                    ctx.count("decodings_recorded", len(asked))
                # order, other correct value, repetition, and splitting
                items = list(counts.items())
                rng.shuffle(items)
                ctx.expect(close(b.logical_error_rate(dict(items), **kw), want), "rate depends on the order of the counts",
                           order=items, **detail)
                b2 = TopologicalBenchmark(decoder=dec, circ=make(code).circ, correct_logical_value=1 - correct)
                ctx.expect(close(b2.logical_error_rate(counts, **kw), 1 - want), "rates for the two correct values do not "
                           "add up to one", **detail)
                if len(items) > 1:
                    cut = rng.randint(1, len(items) - 1)
                    parts = [dict(items[:cut]), dict(items[cut:])]
                    if all(sum(x.values()) for x in parts):
                        tot = sum(Fraction(b.logical_error_rate(x, **kw)) * sum(x.values()) for x in parts)
                        ctx.expect(close(tot / sum(counts.values()), want), "rate depends on how the counts are split",
                                   **detail)
                # the same counts with other probabilities on the same benchmark, back and forth
                if rep % 3 == 0:
                    dec.log = None
                    for p2 in rng.sample([None, 0.0, 1e-4, 0.05, 0.2, 0.45], 3) + [p]:
                        fresh = make_decoder(code, T)
                        w2 = rate(counts, lambda s: int(fresh.correct_readout(s, "Z", err_prob=p2)), correct)
                        g2 = b.logical_error_rate(counts, err_prob=p2)
                        ctx.expect(close(g2, w2), "rate of counts rated before with another error probability", now=p2,
                                   rate=g2, fresh=w2, **detail)
                        ctx.count("rated_again")
                        ctx.count("depends_on_p", int(w2 != want))
                ctx.case((repr(code), T, tuple(sorted(counts.items())), correct, p), nontrivial=0 < want < 1,
                         sample={"code": repr(code), "T": T, "counts": dict(items[:4]), "correct": correct, "p": p,
                                 "rate": float(want)})
    # scripted decoders: any map from readouts to values, many readouts, huge counts
    for rep in range(3000 if ctx.quick else 5000):
        n = rng.choice([1, 2, 3, 50])
        form = rng.choice(["short", "same rounds", "same value", "large"])
        if form == "short":
            pool = [format(rng.getrandbits(20), "020b") for _ in range(n)]
        else:  # as Qiskit writes them, from lattices and histories of any length, many alike but for one place
            m = rng.choice([8, 24, 48, 120]) if form == "large" else rng.choice([2, 8])
            size = rng.choice([1, 1, m + 1])
            rounds = [format(rng.getrandbits(m), f"0{m}b") for _ in range(rng.choice([1, 2, 5, 21]))]
            head = format(rng.getrandbits(size), f"0{size}b")
            pool = []
            for _ in range(n):
                if form == "same rounds":
                    head = format(rng.getrandbits(size), f"0{size}b")
                else:
                    r = list(rounds)
                    k, at = rng.randrange(len(r)), rng.randrange(m)
                    r[k] = r[k][:at] + ("1" if r[k][at] == "0" else "0") + r[k][at + 1:]
                    pool.append(" ".join([head] + r))
                    continue
                pool.append(" ".join([head] + rounds))
            if rng.random() < 0.7:
                pool += [("1" if s[0] == "0" else "0") + s[1:] for s in pool]
        script = {s: rng.choice([0, 1, 1]) for s in pool}
        counts = {s: rng.choice([1, 2, 7, 10 ** 6, 10 ** 12, rng.randint(1, 10 ** 4)]) for s in script}
        if rng.random() < 0.3:
            counts = {s: int64(c) for s, c in counts.items()}
        elif rng.random() < 0.3:
            counts = Counts(counts)
        correct = rng.choice([0, 1, 0, 1, False, True, int64(0), int64(1)])
        if rng.random() < 0.2:
            script = {s: int64(v) for s, v in script.items()}
        p = rng.choice([None, 0.07, 0.2])
        d = Scripted({"d": (3, 3), "T": 1}, script)
        with ctx.guard(script=dict(list(script.items())[:6]), counts=dict(list(counts.items())[:6]), correct=correct, p=p):
            b = TopologicalBenchmark(decoder=d, circ=None, correct_logical_value=correct)
            got = b.logical_error_rate(counts, err_prob=p)
            want = rate(counts, script.get, correct)
            ctx.expect(close(got, want), "logical error rate differs from the share of wrong decodings", got=got,
                       expected=want)
            ctx.expect(all(c[2] == p for c in d.calls), "the error probability was not applied", calls=d.calls[:4])
        ctx.case((tuple(sorted(counts.items())), tuple(sorted(script.items())), correct, p), nontrivial=0 < want < 1)
        ctx.count("scripted")
        if ctx.out_of_time(0.95):
            return
