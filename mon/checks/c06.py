"""C06: generated readout strings (every bit pattern class, all sizes) against a string parser written from the
documented order X_N..X_0Z_N..Z_0, newest round leftmost."""
from qtcodes import TopologicalCircuit, TopologicalRegister

from mon.codes import Code, ctype, decoder_keys, family, make, make_decoder

META = dict(rule="one evaluation = one string parsed by one parser and compared; non-trivial: at least one hit; "
                 "distinct by (code, rounds, readout kind, string)", min_nontrivial=2000)


def expected(code, rounds, readout, kind, basis):
    """rounds: list of sets of set plaquettes, oldest first; readout: bit or list of data bits."""
    seq = [set(r) for r in rounds]
    if kind == "lattice":
        final = {(t, i) for t, i in seq[-1] if t != basis}
        final |= {(basis, i) for i, (_, sup) in enumerate(code.pl[basis]) if sum(readout[k] for k in sup) % 2}
        seq.append(final)
        value = sum(readout[k] for k in code.logical_support(basis)) % 2
    else:
        value = readout
    hits = {"X": [], "Z": []}
    for r in range(1, len(seq)):
        for t, i in seq[r] ^ seq[r - 1]:
            hits[t].append((r - 1,) + code.pl[t][i][0])
    return value, hits


def string_of(code, rounds, readout, kind):
    parts = []
    for r in rounds:
        parts.append("".join("1" if (t, i) in r else "0" for t in "XZ" for i in reversed(range(len(code.pl[t])))))
    parts.append("".join(str(b) for b in reversed(readout)) if kind == "lattice" else str(readout))
    return " ".join(reversed(parts))


def same(got, want):
    try:
        v, h = got
        if int(v) != want[0]:
            return False
        for t in "XZ":
            g = sorted(tuple(float(x) for x in n) for n in h.get(t, []))
            if g != sorted(tuple(float(x) for x in n) for n in want[1][t]):
                return False
        return True
    except (TypeError, ValueError):
        return False


def case(ctx, code, parsers, nrounds, kind, basis, density):
    rng = ctx.rng
    allp = [(t, i) for t in "XZ" for i in range(len(code.pl[t]))]
    if density == "one":
        rounds = [set() for _ in range(nrounds)]
        if rounds and allp:
            rounds[rng.randrange(nrounds)].add(rng.choice(allp))
    elif density == "full":
        rounds = [set(allp) if rng.random() < 0.5 else set() for _ in range(nrounds)]
    elif density == "sticky":  # values persist, few changes
        cur = {p for p in allp if rng.random() < 0.5}
        rounds = []
        for _ in range(nrounds):
            cur = set(cur)
            for p in rng.sample(allp, min(len(allp), rng.randint(0, 2))):
                cur ^= {p}
            rounds.append(cur)
    else:
        rounds = [{p for p in allp if rng.random() < density} for _ in range(nrounds)]
    if kind == "lattice":
        readout = [int(rng.random() < (0.5 if rng.random() < 0.7 else 0.1)) for _ in range(code.n)]
    else:
        readout = rng.randrange(2)
    s = string_of(code, rounds, readout, kind)
    want = expected(code, rounds, readout, kind, basis)
    for name, fn in parsers:
        with ctx.guard(code=repr(code), parser=name, string=s, kind=kind, basis=basis):
            if kind == "lattice":  # a topological circuit reads in Z unless told otherwise
                got = fn(s) if name == "circuit" and basis == "Z" and rng.random() < 0.5 else fn(s, basis)
            else:
                got = fn(s, basis) if rng.random() < 0.5 else fn(s)
            ctx.expect(same(got, want), "parsed readout differs from what the string says", got=got, expected=want)
            if rng.random() < 0.15:  # what was parsed belongs to the caller, who may change it
                for t in "XZ":
                    if isinstance(got[1].get(t), list):
                        got[1][t].append((0.0, 0.5, 0.5)) if rng.random() < 0.6 else got[1][t].clear()
                ctx.count("result_changed_by_caller")
                ctx.expect(same(fn(s, basis), want), "a string parsed again gives something else after the caller changed the "
                           "first result", expected=want)
            if kind == "lattice" and rng.random() < 0.2:  # the same string in the other basis
                other = "XZ"[basis == "X"]
                w2 = expected(code, rounds, readout, kind, other)
                got = fn(s, other)
                ctx.expect(same(got, w2), "lattice readout parsed in one basis and then in the other differs from what "
                           "the string says", got=got, expected=w2, then=other)
        ctx.case((repr(code), s, kind, basis), nontrivial=bool(want[1]["X"] or want[1]["Z"]),
                 sample={"code": repr(code), "string": s, "kind": kind, "basis": basis, "hits": want[1],
                         "value": want[0]})
        ctx.count("parser_" + name)


def parsers_for(ctx, code, T):
    out = []
    with ctx.guard(code=repr(code), T=T):
        q = make(code)
        out.append(("qubit", q.parse_readout))
        d = make_decoder(code, max(T, 1))
        out.append(("decoder", d.parse_readout))
        treg = TopologicalRegister(ctypes=[ctype("XXZZ"), ctype(code.kind)], params=[{"d": 3}, code.params()])
        tc = TopologicalCircuit(treg)
        out.append(("circuit", lambda s, b=None: tc.parse_readout(1, s, b) if b else tc.parse_readout(1, s)))
        # parsing does not depend on what has been built so far
        q2 = make(code)
        use = ["stabilize"] * 3 + ["readout_x"] if ctx.rng.random() < 0.5 else \
            ctx.rng.choices(["stabilize", "readout_x", "readout_z", "lattice_readout_x", "lattice_readout_z", "x", "reset_z"],
                            k=ctx.rng.randint(1, 6))
        for op in use:
            getattr(q2, op)()
        out.append(("used_qubit", q2.parse_readout))
    return out


def exhaustive(ctx):
    """All strings of small codes: every pair of consecutive syndromes."""
    for code in ctx.order([Code("XXZZ", 3, 1), Code("XZZX", 1, 3), Code("REP", 5, 1), Code("REPP", 1, 5)]):
        ps = parsers_for(ctx, code, 1)
        allp = [(t, i) for t in "XZ" for i in range(len(code.pl[t]))]
        m = len(allp)
        sub = lambda v: {p for b, p in enumerate(allp) if v >> b & 1}
        for a in range(1 << m):
            for b in range(1 << m):
                for bit in (0, 1):
                    s = string_of(code, [sub(a), sub(b)], bit, "ancilla")
                    want = expected(code, [sub(a), sub(b)], bit, "ancilla", "Z")
                    with ctx.guard(code=repr(code), string=s):
                        ctx.expect(same(ps[0][1](s), want), "parsed readout differs", expected=want)
                    ctx.case((repr(code), s, "x"), nontrivial=a != b)
            for v in range(1 << code.n):
                ro = [v >> k & 1 for k in range(code.n)]
                for basis in "XZ":
                    s = string_of(code, [sub(a)], ro, "lattice")
                    want = expected(code, [sub(a)], ro, "lattice", basis)
                    with ctx.guard(code=repr(code), string=s, basis=basis):
                        ctx.expect(same(ps[0][1](s, basis), want), "parsed lattice readout differs", expected=want)
                    ctx.case((repr(code), s, basis), nontrivial=True)


def run(ctx):
    exhaustive(ctx)
    codes = family(49 if ctx.quick else 81)
    reps = 40 if ctx.quick else 100
    big = [Code(k, *d) for k in ("XXZZ", "XZZX") for d in ((9, 9), (11, 11), (3, 29), (21, 3), (13, 13))]
    big += [Code(ctx.rng.choice(["XXZZ", "XZZX"]), *d) for d in ((3, 99), (5, 99 + 2 * ctx.rng.randint(1, 40)), (99, 3),
                                                                 (25, 21), (1, 99), (103, 1))]
    big += [Code("REP", 67, 1), Code("REP", 131, 1), Code("REPP", 1, 75)]
    for code in ctx.order(big):
        ps = parsers_for(ctx, code, 2)
        for r in range(25 if ctx.quick else 60):
            case(ctx, code, ps, ctx.rng.choice([2, 3, 5]), "lattice" if r % 2 else "ancilla", "XZ"[(r // 2) % 2],
                 ["full", "sticky", 0.5, 0.9, "one"][r % 5])
    for code in ctx.order(codes):
        ps = parsers_for(ctx, code, 2)
        for r in range(reps):
            kind = "lattice" if r % 2 else "ancilla"
            nrounds = ctx.rng.choice([1, 2, 2, 3, 4, 6, 11, 13]) if r > 1 else ctx.rng.choice([25, 36, 70, 130, 260])
            dens = ctx.rng.choice(["one", "full", "sticky", "sticky", 0.05, 0.5, 0.9])
            case(ctx, code, ps, nrounds, kind, "XZ"[(r // 2) % 2], dens)
        if ctx.out_of_time(0.9):
            break
