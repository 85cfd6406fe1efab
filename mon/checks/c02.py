"""C02: data errors are injected into the executing circuit; the signature of every single-qubit error is
recorded from the parsed readout, the lightest undetected combination that flips the readout is computed
from these observations, and it and thousands of lighter random combinations are executed for real."""
from mon.codes import Code, family
from mon.faults import Run, min_weight_logical

META = dict(rule="one evaluation = one executed error scenario; non-trivial: two or more errors; distinct by "
                 "(code, basis, readout kind, encoded value, error set)", min_nontrivial=2000)


def scenario_case(ctx, code, basis, readout, flip, nrand):
    rng = ctx.rng
    with ctx.guard(code=repr(code), basis=basis, readout=readout, flip=flip):
        run = Run(code, basis, 2, readout, rng, flip)
        gaps = [1, 2] if readout == "lattice" else [1]
        gap = rng.choice(gaps)
        singles = [(k, p) for k in range(code.n) for p in "XYZ"]
        outs = run.execute([[run.data_fault(gap, k, p)] for k, p in singles])
        cols = []
        for (k, p), s in zip(singles, outs):
            log, hits = run.q.parse_readout(s, basis)
            cols.append(((k, p), frozenset(tuple(h) for h in hits[basis]), int(log != run.expected)))
        ctx.case((repr(code), basis, readout, "singles"), nontrivial=False, n=len(singles))
        d = code.distance(basis)
        w, path = min_weight_logical(cols, d)
        ctx.expect(w is None or w >= d, "an error lighter than the distance is undetected and flips the readout",
                   weight=w, distance=d, errors=[c[0] for c in path or []])
        ctx.expect(w == d, "no error of weight d flips the readout undetected", weight=w, distance=d)
        ctx.count("distances_measured")
        # execute the lightest logical error and every part of it, and random lighter sets
        scen = [[c[0] for c in path]]
        for j in range(min(len(path), 6)):
            scen.append([c[0] for i, c in enumerate(path) if i != j])
        for _ in range(nrand):
            m = rng.randint(1, d - 1) if d > 1 else 0
            if not m:
                break
            style = rng.random()
            if style < 0.4:  # part of a straight or wandering line towards the other boundary
                qs, (r, c) = set(), (rng.randrange(code.dh), rng.randrange(code.dw))
                for _ in range(m):
                    qs.add(r * code.dw + c)
                    if basis == "Z":
                        r = min(max(r + rng.choice((-1, 1, 1)), 0), code.dh - 1)
                        c = min(max(c + rng.choice((-1, 0, 1)), 0), code.dw - 1)
                    else:
                        c = min(max(c + rng.choice((-1, 1, 1)), 0), code.dw - 1)
                        r = min(max(r + rng.choice((-1, 0, 1)), 0), code.dh - 1)
                scen.append([(k, code.basis_err(basis, k)) for k in sorted(qs)])
            else:
                scen.append([(k, rng.choice("XYZ")) for k in rng.sample(range(code.n), min(m, code.n))])
        outs = run.execute([[run.data_fault(gap, k, p) for k, p in sc] for sc in scen])
        for n, (sc, s) in enumerate(zip(scen, outs)):
            log, hits = run.q.parse_readout(s, basis)
            flipped = log != run.expected
            if n == 0:
                ctx.expect(flipped and not hits[basis], "the logical error found does not act as observed singly",
                           errors=sc, readout=s)
            else:
                ctx.expect(hits[basis] or not flipped, "undetected error lighter than the distance flips the readout",
                           errors=sc, readout=s, distance=d)
                ctx.count("flipped" if flipped else "unflipped")
            ctx.case((repr(code), basis, readout, flip, tuple(sc)), nontrivial=len(sc) > 1,
                     sample={"code": repr(code), "basis": basis, "readout": readout, "errors": sc, "string": s,
                             "flipped": flipped, "hits": hits[basis]})


def run(ctx):
    small = family(35 if ctx.quick else 49)
    big = [Code("XXZZ", 7, 7), Code("XZZX", 7, 7), Code("XXZZ", 5, 9), Code("XZZX", 9, 5), Code("XXZZ", 3, 15), Code("XXZZ", 15, 3),
           Code("XZZX", 3, 15), Code("XZZX", 15, 3)]
    if not ctx.quick:
        big += [Code("XXZZ", 9, 9), Code("XZZX", 9, 9), Code("XXZZ", 11, 5), Code("XZZX", 5, 11), Code("XXZZ", 11, 11),
                Code("XXZZ", 3, 25), Code("XZZX", 25, 3), Code("XZZX", 3, 25), Code("XXZZ", 25, 3)]
    for code in ctx.order(small + big):
        for basis in "XZ":
            for readout in ("ancilla", "lattice"):
                scenario_case(ctx, code, basis, readout, ctx.rng.random() < 0.5, 40 if ctx.quick else 150)
            if ctx.out_of_time(0.95):
                return
