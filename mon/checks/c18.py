"""C18: enumeration of size specifications for every encoder and decoder class. What is built is observed (qubits of the
circuit, plaquettes it measures, nodes of the graph, parsing), what is refused must be refused with the lattice error."""
import itertools

import numpy as np
import qtcodes
from qtcodes.circuits.base import LatticeError

from mon import oracle
from mon.checks.c06 import expected, same, string_of
from mon.codes import Code
from mon.sim import walk

META = dict(rule="one evaluation = one construction attempt judged; non-trivial: accepted and observed, or refused; "
                 "distinct by (class, parameters)", min_nontrivial=600)


def wanted(kind, params):
    """(dh, dw) that must be built, or None if it must be refused."""
    phase = bool(params.get("phase-flip-protected", False))
    d = params.get("d", 3)
    num = isinstance(d, (int, float, np.number))
    if num:
        t = (d, d) if kind in ("XXZZ", "XZZX") else ((1, d) if phase else (d, 1))
    else:
        t = tuple(d)
    if len(t) != 2 or any(x < 1 or int(x) % 2 == 0 for x in t):
        return None
    t = tuple(int(x) for x in t)
    if kind == "REP" and t[0 if phase else 1] != 1:
        return None
    return t


def specs(ctx):
    rng = ctx.rng
    nums = list(range(-5, 14)) + [15, 21, 33, 40]
    for n in nums:
        if n == 1:
            continue
        yield n
        if abs(n) < 8:
            yield float(n)
            yield np.int64(n)
    small = [-3, -1, 0, 1, 2, 3, 4, 5, 7]
    for a, b in itertools.product(small, small):
        if (a, b) != (1, 1):
            yield (a, b)
    for _ in range(300 if ctx.quick else 400):
        a, b = rng.randint(-9, 25), rng.randint(-9, 13)
        if (a, b) != (1, 1):
            yield (a, b)
    for a, b in ((49, 1), (1, 51), (3, 63), (65, 3), (64, 3), (3, 64), (1, 101), (127, 1), (129, 1), (1, 257), (257, 1), (256, 1)):
        yield (a, b)
    for a, b in ((3, 5), (4, 3), (3, 4), (0, 3), (1, 3), (3, 1), (-3, 3), (3, -3), (-1, -1)):
        yield (float(a), float(b))
        yield (np.int64(a), np.int64(b))
    for t in ((), (3,), (1,), (3, 3, 3), (1, 3, 1), (3, 1, 1), (5, 1, 3, 1)):
        yield t
    for t in ([3, 3], [3, 5], [5, 1], [4, 3], [3, 4], [-3, 3], [3, 0], [3], [3, 3, 3]):
        yield t


def attempt(ctx, cls, params):
    try:
        return cls(params), None
    except LatticeError as e:
        return None, e


def observe_encoder(ctx, kind, dims, q):
    code = Code({"REP": "XXZZ"}.get(kind, kind), *dims)
    data = len(q.lattice.qregisters["data"])
    ctx.expect(data == code.n, "the encoder has another number of data qubits", expected=code.n, got=data)
    before = len(q.circ.cregs)
    mark = len(q.circ.data)
    q.stabilize()
    bits = sum(len(r) for r in q.circ.cregs[before:])
    meas = len({e.c for e in walk(q.circ, mark) if e.op == "measure"})
    ctx.expect(bits == meas == code.nsyn, "a round of the encoder measures another number of plaquettes",
               expected=code.nsyn, got=meas, register=bits)
    return code


def observe_decoder(ctx, kind, dims, dec, T, phase):
    code = Code({"REP": "XXZZ"}.get(kind, kind), *dims)
    keys = {"X", "Z"} if kind != "REP" else ({"X"} if phase else {"Z"})
    ctx.expect(set(dec.S) == keys, "the decoder has graphs for other types", got=sorted(dec.S), expected=sorted(keys))
    for key in keys:
        adj, _, _ = oracle.graph(*dims, key, T)
        nodes = {tuple(n) for n in dec.S[key].nodes()}
        ctx.expect(nodes == set(adj), "the decoder's graph is of another lattice", key=key,
                   extra=sorted(nodes - set(adj))[:4], missing=sorted(set(adj) - nodes)[:4])
    return code


def agree(ctx, code, parsers, T):
    rng = ctx.rng
    allp = [(t, i) for t in "XZ" for i in range(len(code.pl[t]))]
    rounds = [{p for p in allp if rng.random() < 0.4} for _ in range(T + 1)]
    s = string_of(code, rounds, rng.randrange(2), "ancilla")
    want = expected(code, rounds, int(s[0]), "ancilla", "Z")
    for name, fn in parsers:
        ctx.expect(same(fn(s), want), "encoder and decoder do not agree on the lattice", parser=name, string=s,
                   got=fn(s), expected=want)


def one(ctx, kind, base, d, k):
    params = dict(base) if d is None else {**base, "d": d}
    flag = params.get("phase-flip-protected")
    if flag is not None and k % 3 == 1:  # parameters are numbers, so a flag may be one too
        params["phase-flip-protected"] = [int, np.bool_, np.int64][k // 3 % 3](flag)
    enc_cls = {"XXZZ": qtcodes.XXZZQubit, "XZZX": qtcodes.XZZXQubit, "REP": qtcodes.RepetitionQubit}[kind]
    dec_cls = qtcodes.RepetitionDecoder if kind == "REP" else qtcodes.RotatedDecoder
    phase = bool(base.get("phase-flip-protected"))
    want = wanted(kind, params)
    with ctx.guard(encoder=enc_cls.__name__, params=params, must_build=want):
        q, err = attempt(ctx, enc_cls, dict(params))
        if want is None:
            ctx.expect(q is None, "a size that is no positive odd size was accepted by the encoder")
            ctx.count("encoder_refused")
        else:
            ctx.expect(q is not None, "a positive odd size was refused by the encoder", error=repr(err))
            if want[0] * want[1] <= 700:
                code = observe_encoder(ctx, kind, want, q)
            ctx.count("encoder_built")
        ctx.case((enc_cls.__name__, repr(params)), sample={"class": enc_cls.__name__, "params": params, "built": want})
    if d is None and kind != "REP":
        return
    for T in ((1, 3) if k % 3 == 0 else (2,)):
        with ctx.guard(decoder=dec_cls.__name__, params=params, T=T, must_build=want):
            dec, err = attempt(ctx, dec_cls, {**params, "T": T})
            if want is None:
                ctx.expect(dec is None, "a size that is no positive odd size was accepted by the decoder")
                ctx.count("decoder_refused")
            else:
                ctx.expect(dec is not None, "a positive odd size was refused by the decoder", error=repr(err))
                ctx.count("decoder_built")
                if want[0] * want[1] <= 250:
                    code = observe_decoder(ctx, kind, want, dec, T, phase)
                    q2 = enc_cls(dec.params)
                    observe_encoder(ctx, kind, want, enc_cls(dict(dec.params)))
                    agree(ctx, code, [("encoder", enc_cls(dict(params)).parse_readout), ("decoder", dec.parse_readout),
                                      ("encoder of decoder's parameters", q2.parse_readout)], T)
                    ctx.count("agreements")
            ctx.case((dec_cls.__name__, repr(params), T),
                     sample={"class": dec_cls.__name__, "params": params, "T": T, "built": want})


def run(ctx):
    bases = {"XXZZ": [{}], "XZZX": [{}],
             "REP": [{}, {"phase-flip-protected": False}, {"phase-flip-protected": True}]}
    todo = [(kind, base, d) for kind in bases for base in bases[kind] for d in itertools.chain([None], specs(ctx))
            if not (kind == "REP" and isinstance(d, list))]
    for k, (kind, base, d) in enumerate(ctx.order(todo), 1):
        one(ctx, kind, base, d, k)
        if ctx.out_of_time(0.95):
            return
    # what a decoder cannot do without
    for cls, params in [(qtcodes.RotatedDecoder, {"T": 2}), (qtcodes.RotatedDecoder, {"d": 3}), (qtcodes.RotatedDecoder, {}),
                        (qtcodes.RotatedDecoder, {"d": (3, 5)}), (qtcodes.RepetitionDecoder, {"d": 3}),
                        (qtcodes.RepetitionDecoder, {}), (qtcodes.RepetitionDecoder, {"d": (1, 3), "phase-flip-protected": True})]:
        try:
            cls(dict(params))
            ok = True
        except Exception:
            ok = False
        ctx.expect(not ok, "a decoder without size or round number was accepted", decoder=cls.__name__, params=params)
        ctx.case((cls.__name__, repr(params), "incomplete"))
        ctx.count("incomplete_refused")
