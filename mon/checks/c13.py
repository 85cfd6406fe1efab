"""C13: every pattern of data errors (all 2^d for small d, near-half and random ones for large) is executed on the
real repetition-code circuit and decoded; the verdict is the majority of the pattern."""
from mon.codes import Code, Decoders
from mon.faults import Run

META = dict(rule="one evaluation = one error pattern executed and decoded; non-trivial: at least one error; distinct by "
                 "(code, readout, encoded value, pattern)", min_nontrivial=3000)


def patterns(ctx, d, cap):
    rng = ctx.rng
    if 2 ** d <= cap:
        return [tuple(k for k in range(d) if m >> k & 1) for m in range(2 ** d)]
    out = {(), tuple(range(d))}
    h = d // 2
    for m in (h, h + 1):
        for a in range(d):  # runs of just below / above half, everywhere
            out.add(tuple(sorted((a + i) % d for i in range(m))))
        out.add(tuple(range(0, 2 * m, 2))[:m] if 2 * m - 1 <= d else tuple(range(m)))
        for _ in range(cap // 6):
            out.add(tuple(sorted(rng.sample(range(d), m))))
    while len(out) < cap:
        w = rng.randint(0, d)
        out.add(tuple(sorted(rng.sample(range(d), w))))
    return sorted(out)


def run(ctx):
    ctx.decs = Decoders(ctx.rng)
    quick = ctx.quick
    sizes = [3, 5, 7, 9, 11, 13, 15, 19, 21, 31, 45] if quick else [3, 5, 7, 9, 11, 13, 15, 17, 21, 25, 31, 41, 51]
    cap = 2048 if quick else 8192
    for d in ctx.order(sizes):
        for kind in ctx.order(["REP", "REPP"]):
            code = Code(kind, d, 1) if kind == "REP" else Code(kind, 1, d)
            basis = "Z" if kind == "REP" else "X"
            pats = patterns(ctx, d, cap if d < 21 else cap // 4)
            for readout in ("ancilla", "lattice"):
                for flip in (False, True):
                    with ctx.guard(code=repr(code), readout=readout, encoded=int(flip)):
                        run_ = Run(code, basis, 2 if readout == "ancilla" else 1, readout, ctx.rng, flip)
                        dec = ctx.decs.of(code, 1)
                        e = code.basis_err(basis, 0)
                        conc = [[run_.data_fault(1, k, "Y" if ctx.rng.random() < 0.1 else e) for k in p] for p in pats]
                        for p, s in zip(pats, run_.execute(conc)):
                            want = int(flip) ^ (2 * len(p) > d)
                            got = dec.correct_readout(s, basis)
                            ctx.expect(got == want, "decoded value is not the majority", pattern=p, string=s,
                                       decoded=got, majority=want)
                            ctx.case((repr(code), readout, flip, p), nontrivial=bool(p),
                                     sample={"code": repr(code), "readout": readout, "encoded": int(flip),
                                             "errors_on": p, "string": s, "decoded": got})
                            ctx.count("minority" if 2 * len(p) < d else "majority")
                if ctx.out_of_time(0.95):
                    return
        ctx.count("lengths_exhausted" if 2 ** d <= cap else "lengths_sampled")
