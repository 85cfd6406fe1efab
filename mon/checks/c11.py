"""C11: every edge weight the decoder produces for generated hits and error probabilities is compared with shortest
paths counted independently; the decoded value with an exact minimum-weight matching under these weights."""
import itertools
import math

from mon import oracle
from mon.checks.c10 import nodes_of, random_hits, string_of
from mon.codes import Code, Decoders, decoder_keys, family

META = dict(rule="one evaluation = one edge weight compared or one weighted decoding compared; non-trivial: degeneracy "
                 "above one, or decodings whose two classes differ; distinct by (code, T, basis, p, edge or hits)",
            min_nontrivial=3000)

PROBS = [1e-30, 1e-13, 1e-9, 1e-6, 1e-4, 0.001, 0.01, 0.05, 0.1, 0.16, 0.25, 0.4, 0.46, 0.49]


def weights(ctx, code, T, basis, dec, hits, p):
    with ctx.guard(code=repr(code), T=T, basis=basis, hits=hits, p=p):
        g = dec._make_error_graph(list(hits), basis, err_prob=p)
        _, virt, _ = oracle.graph(code.dh, code.dw, basis, T)
        have = {}
        for a, b, w in g.weighted_edge_list():
            have[frozenset((tuple(g[a]), tuple(g[b])))] = w
        pairs = list(itertools.combinations(hits, 2)) + [(h, v) for h in hits for v in virt]
        for a, b in pairs:
            k = frozenset((a, b))
            ctx.expect(k in have, "two hits, or a hit and a boundary node, have no edge in the error graph", pair=(a, b))
            want = oracle.edge_weight(code.dh, code.dw, basis, T, a, b, p)
            ctx.expect(math.isclose(-have[k], want, rel_tol=1e-9, abs_tol=1e-9),
                       "edge weight differs from distance less ln(N)/ln((1-p)/p)", pair=(a, b), weight=-have[k],
                       expected=want)
            dist = oracle.edge_weight(code.dh, code.dw, basis, T, a, b)
            ctx.case((repr(code), T, basis, p, k), nontrivial=not p or want != dist,
                     sample={"code": repr(code), "T": T, "p": p, "pair": (a, b), "weight": want, "distance": dist})
        for a, b in itertools.combinations(sorted(virt), 2):
            k = frozenset((a, b))
            ctx.expect(k in have and abs(have[k]) < 1e-12, "two boundary nodes are not joined for free", pair=(a, b))
        ctx.count("edges", len(pairs))
        ctx.count("weighted" if p else "unweighted")


def decodes(ctx, code, T, basis, dec, hits, p):
    with ctx.guard(code=repr(code), T=T, basis=basis, hits=hits, p=p, part="decode"):
        big = len(hits) > 5 or code.dh + code.dw > 14
        w = (oracle.weighted_minima_big if big else oracle.weighted_minima)(code.dh, code.dw, basis, T, hits, p)
        value = ctx.rng.randrange(2)
        if ctx.rng.random() < 0.5:
            got = dec.correct_readout({"X": list(hits), "Z": list(hits)}, basis, logical_qubit_value=value, err_prob=p)
        else:
            got = dec.correct_readout(string_of(code, basis, T, hits, value, ctx.rng), basis, err_prob=p)
        flip = int(got) ^ value
        tol = 2e-4 * (len(hits) + 1)  # weights are matched with four decimals
        ctx.expect(w[flip] <= w[1 - flip] + tol, "weighted decoding returns the value of a heavier matching",
                   decoded=got, measured=value, minima=w)
        u = (oracle.class_minima_big if big else oracle.class_minima)(code.dh, code.dw, basis, T, hits)
        if big:
            ctx.count("crowded")
        if abs(w[0] - w[1]) > tol:
            ctx.count("decided")
            if u[0] == u[1] or (u[0] < u[1]) != (w[0] < w[1]):
                ctx.count("decided_by_degeneracy")
        ctx.case((repr(code), T, basis, p, tuple(sorted(hits))), nontrivial=abs(w[0] - w[1]) > tol,
                 sample={"code": repr(code), "T": T, "p": p, "hits": hits, "minima": w, "decoded": got})


def run(ctx):
    rng = ctx.rng
    decs = Decoders(rng)
    specs = [(c, T) for c in family(9) for T in (1, 2, 3)]
    for kind in ("XXZZ", "XZZX"):
        specs += [(Code(kind, a, b), T) for a, b, T in ((3, 5, 2), (5, 3, 3), (5, 5, 1), (5, 5, 2), (3, 7, 2), (7, 7, 1))]
    specs += [(Code("REP", 9, 1), 4), (Code("REPP", 1, 9), 3)]
    if not ctx.quick:
        specs += [(Code(k, a, b), T) for k in ("XXZZ", "XZZX") for a, b, T in
                  ((5, 5, 5), (7, 7, 2), (9, 9, 1), (5, 9, 2), (11, 11, 1), (7, 7, 4))]
    # every node of every graph is in some pair: all nodes at once for small graphs, random subsets for large
    for code, T in ctx.order(specs):
        for basis in decoder_keys(code):
            nodes = nodes_of(code, basis, T)
            if not nodes:
                continue
            with ctx.guard(code=repr(code), T=T):
                dec = decs.of(code, T)
            for p in rng.sample(PROBS, 3) + [None]:
                weights(ctx, code, T, basis, dec, nodes if len(nodes) <= 30 else rng.sample(nodes, 30), p)
            for _ in range(12 if ctx.quick else 40):
                hits = rng.sample(nodes, rng.randint(1, min(len(nodes), 8)))
                weights(ctx, code, T, basis, dec, hits, round(rng.uniform(0.001, 0.499), 4))
        if ctx.out_of_time(0.5):
            break
    for rep in range(4 if ctx.quick else 8):
        for code, T in ctx.order(specs):
            if code.dh + code.dw > 14:
                continue
            for basis in decoder_keys(code):
                nodes = nodes_of(code, basis, T)
                if not nodes:
                    continue
                with ctx.guard(code=repr(code), T=T):
                    dec = decs.of(code, T)
                for _ in range(12 if ctx.quick else 60):
                    hits = random_hits(rng, code, basis, T, nodes, 5 if ctx.quick else 6)
                    decodes(ctx, code, T, basis, dec, [tuple(h) for h in hits],
                            rng.choice(PROBS) if rng.random() < 0.5 else round(rng.uniform(0.001, 0.45), 4))
            if ctx.out_of_time(0.75):
                break
        if not ctx.quick and ctx.left() < 0.25 * ctx.soft:
            break
    # many hits, many rounds, large lattices
    crowd = [(Code("XXZZ", 3, 3), 12), (Code("XZZX", 5, 5), 6), (Code("XXZZ", 11, 11), 1), (Code("XZZX", 13, 9), 1),
             (Code("REP", 21, 1), 2), (Code("REPP", 1, 5), 14), (Code("XZZX", 3, 11), 3)]
    for rep in range(4 if ctx.quick else 10):
        for code, T in crowd:
            basis = rng.choice(decoder_keys(code))
            nodes = nodes_of(code, basis, T)
            with ctx.guard(code=repr(code), T=T):
                dec = decs.of(code, T)
            p = rng.choice(PROBS) if rng.random() < 0.5 else round(rng.uniform(0.001, 0.45), 4)
            weights(ctx, code, T, basis, dec, rng.sample(nodes, min(len(nodes), 25)), p)
            if len(nodes) > 30 and rep < 2:  # more hits than decoding ever takes in a test
                weights(ctx, code, T, basis, dec, rng.sample(nodes, min(len(nodes), rng.randint(60, 110))), p)
            for cap in (9, 16, 30):
                decodes(ctx, code, T, basis, dec, [tuple(h) for h in random_hits(rng, code, basis, T, nodes, cap)],
                        rng.choice(PROBS))
            decodes(ctx, code, T, basis, dec, rng.sample(nodes, min(len(nodes), rng.randint(10, 24))), p)
            if ctx.out_of_time(0.92):
                break
        if ctx.left() < 0.08 * ctx.soft:
            break
    # hits joined by very many shortest paths
    far = [(Code("XXZZ", 11, 13), 13), (Code("XZZX", 9, 9), 12)] + ([] if ctx.quick else [
        (Code("XXZZ", 17, 17), 9), (Code("XZZX", 13, 13), 15), (Code("XXZZ", 5, 21), 20), (Code("XZZX", 21, 5), 20)])
    for code, T in far:
        with ctx.guard(code=repr(code), T=T):
            dec = decs.of(code, T)
        for basis in decoder_keys(code):
            nodes = nodes_of(code, basis, T)
            ends = [[n for n in nodes if n[0] == t] for t in (0, T - 1)]
            for _ in range(3 if ctx.quick else 10):
                hits = list(dict.fromkeys(rng.sample(ends[0], 3) + rng.sample(ends[1], 3) + rng.sample(nodes, 1)))
                weights(ctx, code, T, basis, dec, hits[:rng.choice([2, 4, 7])] if rng.random() < .2 else hits,
                        rng.choice(PROBS))
    # the limit of no errors: every further path is infinitely unlikely, so plain distances decide
    for code, T in specs[:20]:
        for basis in decoder_keys(code):
            nodes = nodes_of(code, basis, T)
            if nodes:
                dec = decs.of(code, T)
                hits = random_hits(rng, code, basis, T, nodes, 5)
                w = oracle.class_minima(code.dh, code.dw, basis, T, hits)
                with ctx.guard(code=repr(code), T=T, basis=basis, hits=hits, p=0.0):
                    got = dec.correct_readout({"X": list(hits), "Z": list(hits)}, basis, logical_qubit_value=0,
                                              err_prob=0.0)
                    ctx.expect(w[got] <= w[1 - got], "decoding with error probability zero is not minimum weight",
                               decoded=got, minima=w)
                ctx.case((repr(code), T, basis, 0, tuple(hits)), nontrivial=False)
