"""C14: random histories of set / replace / reset / look-up on several decoders run against a reference model holding
its own copies of the counts, with exact rational Bayes as oracle."""
from fractions import Fraction

from mon.checks.c10 import string_of
from mon.codes import Code, make_decoder

META = dict(rule="one evaluation = one look-up compared; non-trivial: the readout is in some table of its basis; "
                 "distinct by (history, look-up)", min_nontrivial=1000)


def counts(rng, pool):
    n = rng.choice([0, 1, 2, 5, len(pool)])
    hi = rng.choice([1, 3, 10, 1000, 10 ** 9])
    return {s: rng.randint(1, hi) for s in rng.sample(pool, min(n, len(pool)))}


def posterior(model, s, basis, prior):
    like = []
    for v in (0, 1):
        t = model[basis, v]
        shots = sum(t.values())
        like.append(Fraction(t.get(s, 0), shots) if shots else Fraction(0))
    pr = [Fraction(x) for x in prior]
    tot = like[0] * pr[0] + like[1] * pr[1]
    if tot == 0:
        return None  # in no table (or excluded by the prior)
    return [like[i] * pr[i] / tot for i in (0, 1)]


def check(ctx, name, dec, model, s, basis, hist):
    rng = ctx.rng
    style = rng.random()
    prior = [Fraction(1, 2)] * 2
    args = {}
    if style < 0.5:
        p = rng.choice([0.5, 0.25, 0.9, 0.001, 0.0, 1.0, 1e-6, rng.random()])
        prior = [p, 1 - p]
        args = {"p_i": [p, 1 - p]}
    known = any(s in model[basis, v] for v in (0, 1))
    with ctx.guard(history=hist[-12:], readout=s, basis=basis, prior=[float(x) for x in prior],
                   tables={f"{b}{v}": dict(list(t.items())[:6]) for (b, v), t in model.items()}):
        got = dec._run_look_up(s, basis, **args)
        want = posterior(model, s, basis, prior) or prior
        ctx.expect(len(got) == 2 and all(abs(float(g) - float(w)) < 1e-9 for g, w in zip(got, want)),
                   "posterior differs from Bayes' rule", got=list(got), expected=[float(w) for w in want])
        val = dec.correct_readout_look_up_table(s, basis)
        uni = posterior(model, s, basis, [Fraction(1, 2)] * 2) or [Fraction(1, 2)] * 2
        ctx.expect(val in (0, 1), "decoded value is neither 0 nor 1", got=val)
        # the library computes with floats: only a clear lead decides
        if abs(uni[0] - uni[1]) > Fraction(1, 10 ** 9):
            ctx.expect(val == (0 if uni[0] > uni[1] else 1), "the look-up value is not the more probable one", got=val,
                       posterior=[float(x) for x in uni])
            ctx.count("decided")
        ctx.case((len(hist), name, s, basis, repr(args)), nontrivial=known,
                 sample={"decoder": name, "readout": s, "basis": basis, "posterior": [float(x) for x in want],
                         "decoded": val})
        ctx.count("known" if known else "unseen")


def run(ctx):
    rng = ctx.rng
    codes = [(Code("XXZZ", 3, 3), 2), (Code("XXZZ", 3, 3), 2), (Code("XZZX", 5, 3), 1), (Code("REP", 3, 1), 2),
             (Code("REPP", 1, 5), 1), (Code("REP", 5, 1), 20), (Code("XXZZ", 5, 5), 9)]
    for h in range(900 if ctx.quick else 1500):
        decs = []
        with ctx.guard(history=h):
            for code, T in rng.sample(codes, 3):
                pool = [string_of(code, "Z", T, [], rng.randrange(2), rng) for _ in range(8)]
                if T > 5:  # long readouts that differ in one place only, also at their ends
                    for _ in range(6):
                        s = list(rng.choice(pool))
                        k = rng.choice([0, len(s) - 1, rng.choice([i for i, c in enumerate(s) if c != " "])])
                        s[k] = "10"[int(s[k])]
                        pool.append("".join(s))
                    pool += [" ".join(["0"] + ["0" * (code.n - 1)] * (T + 1)), " ".join(["1"] + ["0" * (code.n - 1)] * (T + 1))]
                pool += ["".join(rng.choice("01") for _ in range(code.n)) + pool[0][1:] for _ in range(3)]
                pool = sorted(set(pool))
                decs.append((repr(code), make_decoder(code, T), {(b, v): {} for b in "XZ" for v in (0, 1)}, pool))
        # all decoders see each other's readouts
        everything = sorted({s for d in decs for s in d[3]})
        given = []
        hist = []
        for step in range(rng.randint(5, 40)):
            name, dec, model, pool = rng.choice(decs)
            op = rng.random()
            if op < 0.4:
                b, v = rng.choice("XZ"), rng.randrange(2)
                if given and rng.random() < 0.3:  # a dictionary that some table was set from before
                    mine, t = rng.choice(given)
                    ctx.count("set_again")
                else:
                    t = counts(rng, rng.choice([pool, everything]))
                    mine = dict(t)
                    given.append((mine, t))
                hist.append(("set", name, b, v, len(t)))
                with ctx.guard(history=hist[-12:]):
                    dec.set_look_up_table(b, v, mine)
                model[b, v] = dict(t)
                ctx.count("set")
                if rng.random() < 0.3:  # the caller goes on with a dictionary given before
                    other, told = rng.choice(given)
                    what = rng.random()
                    if what < 0.3:
                        other.clear()
                    elif what < 0.6 and other:
                        other[rng.choice(sorted(other))] += rng.randint(1, 50)
                    else:
                        other.update(counts(rng, pool))
                    told.clear()
                    told.update(other)
                    ctx.count("caller_changes")
            elif op < 0.45:
                hist.append(("reset", name))
                with ctx.guard(history=hist[-12:]):
                    dec.reset_look_up_table()
                for k in model:
                    model[k] = {}
                ctx.count("reset")
            else:
                hist.append(("look", name))
                b = rng.choice("XZ")
                seen = sorted(set(model[b, 0]) | set(model[b, 1]))
                s = rng.choice(seen) if seen and rng.random() < 0.8 else rng.choice(everything)
                check(ctx, name, dec, model, s, b, hist)
        for name, dec, model, pool in decs:  # at the end: every table of every decoder
            for b in "XZ":
                for s in sorted(set(model[b, 0]) | set(model[b, 1]))[:8]:
                    check(ctx, name, dec, model, s, b, hist)
        ctx.expect(all(mine == t for mine, t in given), "a caller's dictionary of counts was modified", history=hist[-30:])
        ctx.count("histories")
        if ctx.out_of_time(0.95):
            return
