"""C09: fault injection campaigns. Sets of at most (d-1)/2 data and measurement faults are injected into the
executing circuit, its readout string goes to the real decoder, and the decoded value is compared with the encoded
one. All sets for small cases; random, chain-shaped and time-like sets for large ones."""
import itertools

from mon.codes import Code, Decoders, decoder_keys, family
from mon.faults import Run

META = dict(rule="one evaluation = one fault set executed and decoded; non-trivial: at least one fault; distinct by "
                 "(code, T, basis, readout, encoded value, fault set)", min_nontrivial=5000)


class Campaign:
    def __init__(self, ctx, code, basis, T, readout, flip):
        self.ctx, self.code, self.basis, self.T, self.readout, self.flip = ctx, code, basis, T, readout, flip
        rounds = T + 1 if readout == "ancilla" else T
        self.run = Run(code, basis, rounds, readout, ctx.rng, flip)
        self.dec = ctx.decs.of(code, T)
        self.cache = {}
        self.faults = [("data", g, k) for g in range(1, T + 1) for k in range(code.n)]
        self.faults += [("meas", r, i) for r in range(1, T) for i in range(len(code.pl[basis]))]
        self.t = (code.distance(basis) - 1) // 2

    def concrete(self, f, pauli):
        if f[0] == "data":
            return self.run.data_fault(f[1], f[2], pauli)
        return self.run.meas_fault(f[1], self.basis, f[2])

    def check(self, sets):
        ctx, code = self.ctx, self.code
        with ctx.guard(code=repr(code), basis=self.basis, T=self.T, readout=self.readout, encoded=int(self.flip)):
            sets = [[(f, self.pauli(f)) for f in s] for s in sets]
            outs = self.run.execute([[self.concrete(f, p) for f, p in s] for s in sets])
            for s, string in zip(sets, outs):
                if string not in self.cache:
                    self.cache[string] = self.dec.correct_readout(string, self.basis)
                    ctx.count("decodings")
                got = self.cache[string]
                ctx.expect(got == self.run.expected, "a correctable set of faults is decoded wrongly", decoded=got,
                           faults=s, string=string, correctable=self.t)
                ctx.case((repr(code), self.basis, self.T, self.readout, self.flip, tuple(sorted(s))), nontrivial=bool(s),
                         sample={"code": repr(code), "basis": self.basis, "T": self.T, "readout": self.readout,
                                 "faults": s, "string": string, "decoded": got})
                ctx.count(f"weight_{len(s)}")

    def pauli(self, f):
        e = self.code.basis_err(self.basis, f[2]) if f[0] == "data" else "M"
        if e == "M":
            return e
        return self.ctx.rng.choice([e, e, "Y"])

    def random_set(self):
        rng, code = self.ctx.rng, self.code
        m = rng.randint(max(1, self.t - 1), self.t)
        style = rng.random()
        if style < 0.45:  # a chain from some boundary or the bulk, in the direction of the logical operator
            s = set()
            g = rng.randint(1, self.T)
            along_rows = self.basis == "Z"
            L, W = (code.dh, code.dw) if along_rows else (code.dw, code.dh)
            a = rng.choice([0, L - m, rng.randrange(L)])
            step = 1
            b = rng.randrange(W)
            for _ in range(m):
                r, c = (a, b) if along_rows else (b, a)
                s.add(("data", g, r * code.dw + c))
                a = min(max(a + step, 0), L - 1)
                b = min(max(b + rng.choice((-1, 0, 1)), 0), W - 1)
                if rng.random() < 0.3:
                    g = min(max(g + rng.choice((-1, 1)), 1), self.T)
            return list(s)
        if style < 0.65 and self.T > 1 and code.pl[self.basis]:  # a plaquette lying for several rounds
            i = rng.randrange(len(code.pl[self.basis]))
            r0 = rng.randrange(1, self.T)
            s = [("meas", r, i) for r in range(r0, min(r0 + m, self.T))]
            rest = m - len(s)
            pool = [("data", rng.randint(1, self.T), k) for k in code.pl[self.basis][i][1]]
            return list(set(s + pool[:rest]))
        return rng.sample(self.faults, min(m, len(self.faults)))


def run(ctx):
    ctx.decs = Decoders(ctx.rng)
    quick = ctx.quick
    rng = ctx.rng
    # everything of one and two faults on small cases
    small = [c for c in family(9) if max(c.dh, c.dw) <= 9] + [Code("XXZZ", 5, 3), Code("XZZX", 3, 5)]
    for code in ctx.order(small):
        for basis in decoder_keys(code):
            for T in (1, 2, 3):
                for readout in ("ancilla", "lattice"):
                    c = Campaign(ctx, code, basis, T, readout, rng.random() < 0.5)
                    sets = [[]] + ([[f] for f in c.faults] if c.t else [])
                    if c.t >= 2:
                        pairs = list(itertools.combinations(c.faults, 2))
                        if len(pairs) > (2000 if quick else 100000):
                            pairs = rng.sample(pairs, 400)
                        sets += [list(p) for p in pairs]
                    if c.t:
                        sets += [c.random_set() for _ in range(80 if quick else 200)]
                    c.check(sets)
            if ctx.out_of_time(0.5):
                break
    ctx.count("exhaustive_part_done")
    big = [(Code(k, a, b), T) for k in ("XXZZ", "XZZX") for a, b, T in
           ((5, 5, 1), (5, 5, 3), (3, 7, 2), (7, 5, 2), (7, 7, 1), (1, 11, 3), (9, 3, 2), (9, 9, 1))]
    big += [(Code("XXZZ", 3, 3), 12), (Code("XZZX", 3, 3), 9), (Code("XXZZ", 5, 5), 7), (Code("REP", 5, 1), 15),
            (Code("XZZX", 5, 3), 11), (Code("REPP", 1, 7), 12), (Code("XXZZ", 11, 11), 1), (Code("XZZX", 13, 13), 1)]
    big += [(Code("REP", 15, 1), 2), (Code("REPP", 1, 15), 2), (Code("REP", 11, 1), 4), (Code("REPP", 1, 21), 1)]
    if not quick:
        big += [(Code(k, a, b), T) for k in ("XXZZ", "XZZX") for a, b, T in
                ((5, 5, 6), (7, 7, 3), (9, 9, 2), (11, 11, 1), (5, 11, 3), (13, 3, 3))]
        big += [(Code("REP", 31, 1), 3), (Code("REPP", 1, 31), 3), (Code("REP", 51, 1), 1)]
    rng.shuffle(big)
    for rep in range(2 if quick else 8):
        for code, T in big:
            for basis in decoder_keys(code):
                for readout in ("ancilla", "lattice"):
                    c = Campaign(ctx, code, basis, T, readout, rng.random() < 0.5)
                    if c.t:
                        c.check([c.random_set() for _ in range(25 if quick else 120)])
                if ctx.out_of_time(0.95):
                    return
