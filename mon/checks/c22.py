"""C22: for random hits the matched graph is compared, match by match and weight by weight, with the matches that the
decoder reports for the same error graph and with the decoded value. Every drawing is read back from the artists on the
figure: position and label of each node, end points and label of each edge; the graph and the decoder are compared with
snapshots taken before."""
import re

import matplotlib.pyplot as plt
import numpy as np
from matplotlib.collections import LineCollection
from matplotlib.patches import FancyArrowPatch
from qiskit import ClassicalRegister, QuantumRegister
from qtcodes import TopologicalCircuit, TopologicalRegister

from mon import oracle
from mon.codes import Code, ctype, decoder_keys, family, make, make_decoder
from mon.report import Inconclusive

META = dict(rule="one evaluation = one matched graph compared with the matches, or one drawing read back; distinct by "
                 "(code, T, key, hits, error probability, kind of graph)", min_nontrivial=400)


def content(g):
    """Nodes and weighted edges of a graph, independent of indices."""
    nodes = [tuple(n) for n in g.nodes()]
    edges = {}
    for a, b, w in g.weighted_edge_list():
        edges.setdefault(frozenset((tuple(g[a]), tuple(g[b]))), []).append(w)
    return nodes, edges


def raw(g):
    return list(g.node_indexes()), [tuple(n) for n in g.nodes()], sorted(g.weighted_edge_list())


def snapshot(dec):
    return ({k: raw(g) for k, g in dec.S.items()}, dict(dec.params),
            {k: list(v) for k, v in getattr(dec, "virtual", {}).items()},
            {k: dict(v) for k, v in getattr(dec, "node_map", {}).items()})


def matched(ctx, dec, code, T, key, hits, p, floats):
    """The matched graph of one error graph against the matches the decoder uses."""
    eg = dec._make_error_graph(list(hits), key, err_prob=p)
    before, sdec = raw(eg), snapshot(dec)
    mg = dec._run_mwpm_graph(eg, floats=floats)
    ctx.expect(raw(eg) == before, "making the matched graph changed the error graph")
    matches = dec._run_mwpm(eg, floats=floats)
    ctx.expect(raw(eg) == before, "matching changed the error graph")
    ctx.expect(snapshot(dec) == sdec, "matching changed the decoder")
    want = [frozenset(tuple(n) for n in m) for m in matches]
    ctx.expect(len(set(want)) == len(want), "a match is reported twice", matches=matches)
    nodes, edges = content(mg)
    _, eedges = content(eg)
    ctx.expect(len(set(nodes)) == len(nodes), "a node appears twice in the matched graph", nodes=nodes)
    ctx.expect(set(edges) == set(want) and all(len(w) == 1 for w in edges.values()),
               "the matched graph does not contain exactly the matches of the decoder",
               extra=[sorted(e) for e in set(edges) - set(want)], missing=[sorted(e) for e in set(want) - set(edges)],
               repeated=[sorted(e) for e, w in edges.items() if len(w) != 1])
    ctx.expect(set(nodes) == {n for m in want for n in m}, "the nodes of the matched graph are not the matched nodes",
               nodes=nodes, matches=matches)
    for e, (w,) in edges.items():
        ctx.expect(abs(w - eedges[e][0]) < 1e-12, "a match has another weight in the matched graph than in the error graph",
                   match=sorted(e), weight=w, error_graph=eedges[e])
    for h in hits:
        n = sum(tuple(h) in e for e in edges)
        ctx.expect(n == 1, "a hit is not in exactly one match of the matched graph", hit=h, matches=n)
    # the decoded value follows from the matches in the graph
    w = None
    if len(hits) <= 10 and p is None:
        w = oracle.class_minima(code.dh, code.dw, key, T, [tuple(h) for h in hits])
    elif p is not None and floats and 0 < len(hits) <= 3 and code.n * T <= 45:
        w = oracle.weighted_minima(code.dh, code.dw, key, T, [tuple(h) for h in hits], p)
        ctx.count("weighted_decodings_compared", int(abs(w[0] - w[1]) > 0.01))
    if w is not None:
        if abs(w[0] - w[1]) > 0.01:
            row = 1 if key == "Z" else 2
            par = sum(any(n[0] == -1 and n[row] == -0.5 for n in e) for e in edges) % 2
            got = dec.correct_readout({key: list(hits)}, key, logical_qubit_value=0, err_prob=p)
            ctx.expect(got == par, "the decoded value does not follow from the matched graph", decoded=got,
                       matches=[sorted(e) for e in edges])
            ctx.count("decodings_compared")
    ctx.count("matches", len(edges))
    return eg, mg


def artists2d(ax):
    """(node positions, edge end points, texts) drawn on 2D axes."""
    nodes, segs = [], []
    for c in ax.collections:
        if isinstance(c, LineCollection):
            segs += [(tuple(s[0]), tuple(s[-1])) for s in c.get_segments()]
        else:
            nodes += [tuple(o) for o in np.asarray(c.get_offsets())]
    for p in ax.patches:
        if isinstance(p, FancyArrowPatch) and getattr(p, "_posA_posB", None) is not None:
            segs.append(tuple(map(tuple, p._posA_posB)))
    for ln in ax.lines:
        d = list(zip(ln.get_xdata(), ln.get_ydata()))
        if len(d) == 2:
            segs.append((d[0], d[1]))
        elif len(d) == 1:
            nodes.append(d[0])
    texts = [(t.get_text(), tuple(t.get_position())) for t in ax.texts if t.get_text()]
    return nodes, segs, texts


def artists3d(ax):
    nodes, segs = [], []
    for c in ax.collections:
        if hasattr(c, "_offsets3d"):
            nodes += list(zip(*[np.asarray(np.ma.getdata(v), float) for v in c._offsets3d]))
        elif hasattr(c, "_segments3d"):
            segs += [(tuple(s[0]), tuple(s[-1])) for s in c._segments3d]
    for ln in ax.lines:
        d = list(zip(*ln.get_data_3d()))
        if len(d) == 2:
            segs.append((d[0], d[1]))
        elif len(d) == 1:
            nodes.append(d[0])
    texts = [(t.get_text(), tuple(t.get_position_3d())) for t in ax.texts if t.get_text()]
    return nodes, segs, texts


def rnd(p):
    return tuple(round(float(x), 6) + 0.0 for x in p)


def numbers(text):
    return [float(x) for x in re.findall(r"-?\d+(?:\.\d+)?(?:e-?\d+)?", re.sub(r"np\.\w+\(", "(", text))]


def check_drawing(ctx, g, dim, drawn, T):
    nodes, edges = content(g)
    got_n, got_s, texts = drawn
    if nodes and not got_n:
        raise Inconclusive("no artists of nodes recognised")
    flat = {n: rnd((n[2], -n[1])) for n in nodes}
    got2 = sorted(rnd(p[:2]) for p in got_n)
    if dim == 2 or len(set(flat.values())) == len(flat):
        ctx.expect(got2 == sorted(flat.values()), "nodes are not drawn at their lattice positions", nodes=nodes[:30],
                   drawn=got2[:30])
    if dim == 3:
        real = sorted(rnd((n[2], -n[1], n[0])) for n in nodes if n[0] != -1)
        have = sorted(rnd(p) for p in got_n)
        rest = list(have)
        for r in real:
            ctx.expect(r in rest, "a node is not drawn at its lattice position and round", wanted=r, drawn=have[:30])
            rest.remove(r)
        virt = sorted(flat[n] for n in nodes if n[0] == -1)
        ctx.expect(sorted(p[:2] for p in rest) == virt, "boundary nodes are not drawn at their lattice positions",
                   wanted=virt, drawn=rest)
        zs = {p[2] for p in rest}
        pos = {n: rnd((n[2], -n[1], n[0])) for n in nodes if n[0] != -1}
        pos.update({n: next(p for p in rest if p[:2] == flat[n]) for n in nodes if n[0] == -1})
    else:
        pos = flat
    want = sorted(sorted(pos[n] for n in e) for e in edges)
    have = sorted(sorted((rnd(a), rnd(b))) for a, b in got_s)
    if want and not have:
        ctx.fail("no edge of the graph is drawn", edges=len(want))
    ctx.expect(have == want, "the edges drawn are not the edges of the graph", extra=[e for e in have if e not in want][:5],
               missing=[e for e in want if e not in have][:5], drawn=len(have), edges=len(want))
    # labels: one text per node naming it at its place, one per edge with its weight at its middle
    left = [(numbers(t), rnd(p)) for t, p in texts]
    for n in nodes:
        hit = [x for x in left if x[0] == [float(v) for v in n] and x[1] == pos[n]]
        ctx.expect(hit, "a node is not labelled at its position", node=n, texts=[x for x in texts][:30])
        left.remove(hit[0])
    for e, (w,) in edges.items():
        a, b = [pos[n] for n in e]
        mid = tuple((x + y) / 2 for x, y in zip(a, b))
        hit = [x for x in left if len(x[0]) == 1 and abs(x[0][0] - w) <= 0.0051 and
               all(abs(u - v) < 1e-3 for u, v in zip(x[1], mid))]
        ctx.expect(hit, "an edge is not labelled with its weight", edge=sorted(e), weight=w, at=mid,
                   texts=[x for x in left][:30])
        left.remove(hit[0])


def drawing(ctx, dec, T, g, show):
    before, sdec = raw(g), snapshot(dec)
    plt.close("all")
    if T == 1:
        out = dec.draw(g) if show and ctx.rng.random() < 0.5 else dec.draw(g, show=show)
        ctx.expect(isinstance(out, tuple) and len(out) == 2, "draw did not return a figure and axes", got=repr(out))
        fig, ax = out
        ctx.expect(ax.figure is fig, "draw returned axes of another figure")
        ctx.expect(bool(plt.get_fignums()) == bool(show), "draw left a figure open although not asked to show it, or closed it",
                   show=show)
        drawn = artists2d(ax)
        check_drawing(ctx, g, 2, drawn, T)
    if T > 1 or ctx.rng.random() < 0.5:
        plt.close("all")
        if ctx.rng.random() < 0.5 or T == 1:
            dec.draw3D(g, **ctx.rng.choice([{}, {"angle": [-60, 30]}]))
        else:
            dec.draw(g)
        axes = [ax for n in plt.get_fignums() for ax in plt.figure(n).axes]
        ctx.expect(len(axes) == 1, "draw did not make one drawing", axes=len(axes))
        ctx.expect(hasattr(axes[0], "get_zlim"), "a drawing of several rounds does not show which round a node is in")
        check_drawing(ctx, g, 3, artists3d(axes[0]), T)
    plt.close("all")
    ctx.expect(raw(g) == before, "drawing changed the graph")
    ctx.expect(snapshot(dec) == sdec, "drawing changed the decoder")
    ctx.count("drawings")


def random_hits(rng, code, T, key, crowd=False):
    pos = [p for p, _ in oracle_plaquettes(code, key)]
    allh = [(t, *p) for t in range(T) for p in pos]
    m = rng.choice([0, 1, 1, 2, 3, 4, 5, 6, 8, 12, 20]) if not crowd else rng.randint(40, 110)
    return rng.sample(allh, min(m, len(allh)))


def oracle_plaquettes(code, key):
    from mon.codes import plaquettes
    return plaquettes(code.dh, code.dw, key)


def circuit_shown(ctx, k):
    """What is printed or drawn of a logical qubit or topological circuit is its circuit, which stays as it is."""
    rng = ctx.rng
    codes = [rng.choice([c for c in family(9)]) for _ in range(rng.choice([1, 1, 2]))]
    opts = rng.choice([{}, {"output": "text"}, {"fold": 60}, {"reverse_bits": True, "plot_barriers": False},
                       {"output": "text", "fold": -1, "idle_wires": False}])
    log = []
    with ctx.guard(codes=[repr(c) for c in codes], options=opts, history=log):
        if len(codes) == 1 and rng.random() < 0.6:
            circ = None
            shown = [make(codes[0])]
            qubits = shown
        else:
            reg = TopologicalRegister(ctypes=[ctype(c.kind) for c in codes], params=[c.params() for c in codes])
            circ = TopologicalCircuit(reg)
            qubits = [reg[i] for i in range(len(codes))]
            shown = [circ] + qubits
        for _ in range(rng.randint(0, 5)):
            op = rng.choice(["stabilize", "x", "z", "reset_x", "readout_z", "lattice_readout_z", "id", "cx", "register"])
            log.append(op)
            if op == "register":
                n = len(log)
                if circ is not None:
                    rng.choice([circ.add_creg, circ.add_qreg])(rng.randint(1, 2), f"user{n}")
                else:
                    shown[0].circ.add_register(rng.choice([ClassicalRegister, QuantumRegister])(rng.randint(1, 2), f"user{n}"))
            elif op == "cx":
                if circ is not None and len(qubits) > 1:
                    circ.cx(*rng.sample([0, 1], 2))
            else:
                getattr(rng.choice(qubits), op)()
            for obj in shown if rng.random() < 0.5 else []:
                str(obj)
                if rng.random() < 0.4:
                    obj.draw(**opts)
        for obj in shown:
            c = obj.circ
            before = (c.copy(), list(c.qregs), list(c.cregs), len(c.data))
            text, drawn = str(obj), obj.draw(**opts)
            ctx.expect(c == before[0] and (list(c.qregs), list(c.cregs), len(c.data)) == before[1:],
                       "showing a circuit changes it")
            ctx.expect(text == str(c), "what is printed is not the circuit", printed=text[:300])
            ctx.expect(str(drawn) == str(c.draw(**opts)), "what is drawn is not the circuit", drawn=str(drawn)[:300])
            ctx.count("circuits_shown")
        ctx.case(("circuit", k, repr(codes), tuple(log), str(opts)), nontrivial=bool(log))


def run(ctx):
    rng = ctx.rng
    for k in range(60 if ctx.quick else 600):
        circuit_shown(ctx, k)
        if ctx.out_of_time(0.2):
            break
    codes = family(15, max_side=9) + [Code("XXZZ", 5, 5), Code("XXZZ", 3, 7), Code("XZZX", 7, 3), Code("REP", 21, 1)]
    if not ctx.quick:
        codes += [Code("XXZZ", 7, 7), Code("XZZX", 5, 9), Code("REPP", 1, 31), Code("XXZZ", 9, 9)]
    decs = {}
    for rep in range(3 if ctx.quick else 6):
        for code in ctx.order(codes):
            for T in ctx.order([1, 2, 4, 12]):
                if code.n * T > (60 if T < 12 else 40) and ctx.quick or code.n * T > 400:
                    continue
                if (repr(code), T) not in decs:
                    with ctx.guard(code=repr(code), T=T):
                        decs[repr(code), T] = make_decoder(code, T)
                dec = decs[repr(code), T]
                for key in decoder_keys(code):
                    for _ in range(6 if ctx.quick else 20):
                        hits = random_hits(rng, code, T, key)
                        p = rng.choice([None, None, 0.001, 0.03, 0.1, 0.2, 0.4])
                        for floats in (True, False):
                            with ctx.guard(code=repr(code), T=T, key=key, hits=hits, err_prob=p, floats=floats):
                                matched(ctx, dec, code, T, key, hits, p, floats)
                            ctx.case((repr(code), T, key, tuple(hits), p, floats), nontrivial=bool(hits),
                                     sample=dict(code=repr(code), T=T, key=key, hits=hits, err_prob=p))
                if ctx.out_of_time(0.4):
                    break
    for code, T in [(Code("XXZZ", 9, 9), 3), (Code("REP", 61, 1), 3), (Code("REPP", 1, 5), 60), (Code("XZZX", 5, 13), 4)]:
        with ctx.guard(code=repr(code), T=T):
            dec = make_decoder(code, T)
        for key in decoder_keys(code):
            hits = random_hits(rng, code, T, key, True)
            p = rng.choice([None, 0.01, 0.1])
            with ctx.guard(code=repr(code), T=T, key=key, hits=hits, err_prob=p):
                matched(ctx, dec, code, T, key, hits, p, p is not None)
            ctx.case((repr(code), T, key, tuple(hits), p), nontrivial=True)
            ctx.count("crowded")
    ctx.count("matching_done")
    jobs = [(c, T) for c in codes for T in (1, 1, 2, 3) if (c.n * T <= 30 if T > 1 else c.n <= 49)]
    rng.shuffle(jobs)
    # long histories, drawn early: every round has to be at its own height
    jobs[3:3] = [(Code("REP", 3, 1), 12), (Code("REPP", 1, 3), 25), (Code("REP", 5, 1), 11), (Code("XXZZ", 3, 3), 11)]
    jobs = jobs * (3 if ctx.quick else 4)
    jobs[7:7] = [(Code("XXZZ", 9, 9), 1), (Code("XZZX", 13, 11), 1), (Code("XXZZ", 5, 7), 3), (Code("REP", 41, 1), 1)]
    for code, T in jobs:
        with ctx.guard(code=repr(code), T=T):
            if (repr(code), T) not in decs:
                decs[repr(code), T] = make_decoder(code, T)
        dec = decs[repr(code), T]
        key = rng.choice(decoder_keys(code))
        hits = random_hits(rng, code, T, key)[:4 if 1 < T < 10 else 8]
        p = rng.choice([None, 0.1, 0.3])
        kind = rng.choice(["syndrome", "error", "matched"]) if T < 10 and code.n * T <= 60 else "syndrome"
        with ctx.guard(code=repr(code), T=T, key=key, hits=hits, err_prob=p, drawing=kind):
            if kind == "syndrome":
                g = dec.S[key]
            else:
                eg = dec._make_error_graph(list(hits), key, err_prob=p)
                g = eg if kind == "error" else dec._run_mwpm_graph(eg, floats=p is not None)
            drawing(ctx, dec, T, g, rng.random() < 0.5)
            if rng.random() < 0.2:
                if kind != "syndrome" and g.num_edges() and rng.random() < 0.6:
                    g.update_edge_by_index(rng.choice(list(g.edge_indices())), float(rng.randint(1, 9)))
                    ctx.count("drawn_again_changed")
                drawing(ctx, dec, T, g, rng.random() < 0.5)
            ctx.case((repr(code), T, key, tuple(hits), p, kind),
                     sample=dict(code=repr(code), T=T, key=key, hits=hits, err_prob=p, drawn=kind))
            ctx.count("drawn_" + kind)
        if ctx.out_of_time(0.9):
            break
