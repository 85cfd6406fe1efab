"""C12: long histories of decodings on shared decoders with deep snapshots; every result is compared with the same
decoding on a fresh decoder, in another order, in other processes (other hash seeds), for equivalent inputs."""
import copy
import json
import os
import random
import subprocess
import sys
import threading
import time

from mon.checks.c10 import nodes_of, random_hits, string_of
from mon.codes import Code, decoder_keys, make_decoder

META = dict(rule="one evaluation = one decoding compared with its twin; non-trivial: at least two hits; distinct by "
                 "(code, T, basis, p, hits, value, kind of twin)", min_nontrivial=2000)

SPECS = [("XXZZ", 3, 3, 1), ("XXZZ", 3, 3, 2), ("XZZX", 3, 5, 3), ("XXZZ", 5, 5, 2), ("XXZZ", 5, 3, 2),
         ("REP", 7, 1, 3), ("REPP", 1, 5, 2), ("XXZZ", 7, 7, 1), ("XZZX", 1, 5, 2),
         # the same lattices turned: whatever one of them leaves in the process does not serve the other
         ("XXZZ", 3, 5, 2), ("XZZX", 5, 3, 3), ("XXZZ", 3, 7, 1), ("XZZX", 7, 3, 1), ("REPP", 1, 7, 3), ("REP", 5, 1, 2)]


def snapshot(dec):
    s = {"params": copy.deepcopy(dec.params), "lut": copy.deepcopy(dec.look_up_table),
         "virtual": copy.deepcopy(getattr(dec, "virtual", None))}
    for k in sorted(dec.S):
        s["S" + k] = ([tuple(n) for n in dec.S[k].nodes()], sorted((a, b, w) for a, b, w in dec.S[k].weighted_edge_list()))
    return s


def inputs(rng, code, T, n):
    out = []
    for _ in range(n):
        basis = rng.choice(decoder_keys(code))
        nodes = {b: nodes_of(code, b, T) for b in "XZ"}
        hits = {b: [] for b in "XZ"}
        if nodes[basis]:
            hits[basis] = [tuple(h) for h in random_hits(rng, code, basis, T, nodes[basis], 8)]
        value = rng.randrange(2)
        s = string_of(code, basis, T, hits[basis], value, rng)
        both = rng.random() < 0.5
        if rng.random() < 0.25:  # a readout of the whole lattice for the last round
            s = " ".join(["".join(rng.choice("01") for _ in range(code.n))] + s.split(" ")[2:])
            both = True
        ps = [rng.choice([None, None, 0.02, 0.1, 0.3])]
        if rng.random() < 0.4:  # the same readout, asked in several ways of the same decoder
            ps = rng.sample([None, 0.001, 0.05, 0.2, 0.4, 0.48], 4)
        for p in ps:
            out += [(s, basis, p)]
            if both:
                out += [(s, b, p) for b in decoder_keys(code) if b != basis]
    return out


def decode(dec, inp):
    s, basis, p = inp
    return int(dec.correct_readout(s, basis, err_prob=p))


def main():
    """Worker: decode everything of a file, in the order given."""
    jobs = json.load(sys.stdin)
    res = []
    for (kind, dh, dw, T), ins in jobs:
        dec = make_decoder(Code(kind, dh, dw), T)
        res.append([decode(dec, i) for i in ins])
    print(json.dumps(res))


def history(ctx, code, T, ins):
    rng = ctx.rng
    with ctx.guard(code=repr(code), T=T):
        dec = make_decoder(code, T)
        s0 = snapshot(dec)
        first = {}
        order = list(range(len(ins))) * 3
        rng.shuffle(order)
        for step, n in enumerate(order):
            s, basis, p = ins[n]
            detail = dict(string=s, basis=basis, p=p, step=step)
            value, hits = dec.parse_readout(s, basis)
            key = lambda kind: (repr(code), T, s, basis, p, kind)
            nt = len(hits[basis]) > 1
            got = decode(dec, ins[n])
            if n in first:
                ctx.expect(got == first[n], "the same readout decodes differently the next time", first=first[n],
                           now=got, **detail)
                ctx.count("repeats")
            else:
                first[n] = got
            ctx.case(key(step), nontrivial=nt, sample={"code": repr(code), "T": T, **detail, "decoded": got})
            # equivalent forms of the same question
            form = rng.randrange(6)
            if form == 0:
                arg = copy.deepcopy(hits)
                r = dec.correct_readout(arg, basis, logical_qubit_value=value, err_prob=p)
                ctx.expect(r == got, "hits parsed from a readout string decode differently from the string", string_=got,
                           hits_=r, **detail)
                ctx.expect(arg == hits, "decoding modified the hits passed in", before=hits, after=arg, **detail)
                ctx.case(key("dict"), nontrivial=nt)
            elif form == 1:
                r = dec.correct_readout(copy.deepcopy(hits), basis, 1 - value, p)
                ctx.expect(r == 1 - got, "flipping the measured value does not flip the decoded value", decoded=got,
                           flipped=r, **detail)
                s2 = ("1" if s[0] == "0" else "0") + s[1:]
                ctx.expect(s[1] != " " or decode(dec, (s2, basis, p)) == 1 - got, "flipping the readout bit does not "
                           "flip the decoded value", **detail)
                ctx.case(key("flip"), nontrivial=nt)
            elif form == 2:
                other = "X" if basis == "Z" else "Z"
                arg = copy.deepcopy(hits)
                pool = nodes_of(code, other, T)
                arg[other] = rng.sample(pool, rng.randint(0, len(pool)))
                keep = copy.deepcopy(arg)
                r = dec.correct_readout(arg, basis, logical_qubit_value=value, err_prob=p)
                ctx.expect(r == got, "hits of the other type change the decoded value", decoded=got, with_others=r,
                           others=arg[other], **detail)
                ctx.expect(arg == keep, "decoding modified the hits passed in", before=keep, after=arg, **detail)
                ctx.case(key("other"), nontrivial=nt)
            elif form == 3 and hits[basis]:
                arg = list(hits[basis])
                g = dec._make_error_graph(arg, basis, err_prob=p)
                ctx.expect(arg == hits[basis], "making the error graph modified the list of hits", before=hits[basis],
                           after=arg, **detail)
                dec._run_mwpm_graph(g, floats=p is not None)
                dec._run_mwpm(g, floats=p is not None)
                ctx.expect(decode(dec, ins[n]) == got, "matching by hand changed later decodings", **detail)
                ctx.case(key("byhand"), nontrivial=nt)
            elif form == 4:
                fresh = make_decoder(code, T)
                r = decode(fresh, ins[n])
                ctx.expect(r == got, "a fresh decoder decodes differently", used=got, fresh=r, **detail)
                ctx.case(key("fresh"), nontrivial=nt)
            elif form == 5:
                arg = copy.deepcopy(hits)
                for t in arg:
                    arg[t] = list(arg[t])
                r = [dec.correct_readout(arg, basis, logical_qubit_value=value, err_prob=p) for _ in range(3)]
                ctx.expect(r == [got] * 3, "decoding the same object repeatedly gives other values", decoded=got,
                           repeated=r, **detail)
                ctx.expect(arg == hits, "decoding modified the hits passed in", before=hits, after=arg, **detail)
                ctx.case(key("object"), nontrivial=nt)
        s1 = snapshot(dec)
        ctx.expect(s0 == s1, "decoding modified the decoder", changed=[k for k in s0 if s0[k] != s1[k]])
        ctx.count("histories")
        return [first[n] for n in range(len(ins))]


def variants(code):
    d = (code.dh, code.dw)
    p = {"phase-flip-protected": True} if code.kind == "REPP" else {}
    out = [{**p, "d": d}, {**p, "d": (float(d[0]), float(d[1]))}]
    if code.kind in ("REP", "REPP"):
        out += [{**p, "d": max(d)}, {**p, "d": float(max(d))}]
        if code.kind == "REP":
            out.append({"d": d, "phase-flip-protected": False})
    else:
        out.append({"d": list(d)})
        if d[0] == d[1]:
            out += [{"d": d[0]}, {"d": float(d[0])}]
    return out


def equivalents(ctx, code, T, ins, res):
    import qtcodes
    cls = qtcodes.RepetitionDecoder if code.kind in ("REP", "REPP") else qtcodes.RotatedDecoder
    decs = []
    for v in variants(code):
        with ctx.guard(code=repr(code), params=v, T=T):
            decs.append((v, cls({**v, "T": T})))
    order = [(n, d) for n in range(len(ins)) for d in range(len(decs))]
    ctx.rng.shuffle(order)  # decoders used in turns: no state may be shared between them
    for n, d in order:
        v, dec = decs[d]
        with ctx.guard(code=repr(code), params=v, T=T, input=ins[n]):
            r = decode(dec, ins[n])
            ctx.expect(r == res[n], "equivalent parameters give a decoder that decodes differently", decoded=r,
                       expected=res[n])
            ctx.case((repr(code), T, repr(v), ins[n]), nontrivial=True)
    ctx.count("parameter_variants", len(decs))


def shared_dict(ctx, kinds):
    """Several decoders from one dictionary that the caller goes on editing: each keeps the lattice and rounds it was
    built with. (Decoders normalise "d" in the caller's dictionary, and the repository's tests rely on that.)"""
    import qtcodes
    rng = ctx.rng
    for kind, sizes in kinds:
        cls = qtcodes.RepetitionDecoder if kind in ("REP", "REPP") else qtcodes.RotatedDecoder
        params = {"phase-flip-protected": True} if kind == "REPP" else {}
        made = []
        for d in sizes:
            for T in rng.sample([1, 2, 3, 4], 3):
                params["d"], params["T"] = d, T
                if rng.random() < 0.3:
                    params["note"] = [len(made)]
                with ctx.guard(kind=kind, d=d, T=T):
                    dec = cls(params)
                    made.append((d, T, dec, copy.deepcopy(dec.params)))
        rng.shuffle(made)
        params["d"], params["T"] = "nonsense", -1
        for d, T, dec, was in made:
            dh, dw = d if not isinstance(d, (int, float)) else ((1, d) if kind == "REPP" else (d, 1) if kind == "REP"
                                                                else (d, d))
            code = Code(kind if kind in ("REP", "REPP") else "XXZZ", int(dh), int(dw))
            with ctx.guard(kind=kind, d=d, T=T):
                ctx.expect(dec.params == was, "a later change of the caller's dictionary, or another decoder, changed the "
                           "parameters of a decoder", was=was, now=dict(dec.params), d=d, T=T)
                enc = dec.encoder  # made on first use
                fresh = cls({**({"phase-flip-protected": True} if kind == "REPP" else {}), "d": d, "T": T})
                for inp in inputs(rng, code, T, 6):
                    a, b = decode(dec, inp), decode(fresh, inp)
                    parsed = [o.parse_readout(inp[0], inp[1]) for o in (enc, dec, fresh)]
                    ctx.expect(parsed[0] == parsed[1] == parsed[2], "the encoder of a decoder made from a shared "
                               "dictionary has another lattice", parsed=parsed, d=d, T=T, input=inp)
                    ctx.expect(a == b, "a decoder made from a shared dictionary decodes differently", decoded=a, fresh=b,
                               d=d, T=T, input=inp)
                    ctx.case((kind, d, T, inp, "shared"), nontrivial=True)
            ctx.count("decoders_from_one_dict")


def threads(ctx, jobs, results):
    """The same decodings in several threads at once, with decoders of their own and shared ones, the interpreter made to
    switch threads at random lines of the library."""
    import qtcodes
    from mon.report import Violation
    rng = ctx.rng
    root = os.path.dirname(qtcodes.__file__)
    for rep in range(3 if ctx.quick else 20):
        pick = rng.sample(range(len(jobs)), min(4, len(jobs)))
        with ctx.guard(threads=rep):
            codes = {j: (Code(*jobs[j][0][:3]), jobs[j][0][3]) for j in pick}
            shared = {j: make_decoder(*codes[j]) for j in pick}
        plans = []
        for _ in range(6):
            items = [(j, i) for j in pick for i in rng.sample(range(len(jobs[j][1])), min(6, len(jobs[j][1])))]
            rng.shuffle(items)
            plans.append((items, rng.random() < 0.5, rng.randrange(1 << 30)))
        got = [[] for _ in plans]
        wrong = []
        trail = []
        start = threading.Barrier(len(plans))

        def work(k):
            items, own, seed = plans[k]
            r = random.Random(seed)

            def tracer(frame, event, arg):
                if not frame.f_code.co_filename.startswith(root):
                    return None
                if event == "line" and r.random() < 0.02:
                    if not trail or trail[-1] != k:
                        trail.append(k)
                    time.sleep(0 if r.random() < 0.8 else 0.0003)
                return tracer

            try:
                start.wait(60)
                decs = {}
                sys.settrace(tracer)
                for j, i in items:
                    if own and j not in decs:
                        decs[j] = make_decoder(*codes[j])
                    dec = decs[j] if own else shared[j]
                    got[k].append((j, i, decode(dec, jobs[j][1][i])))
            except BaseException as e:
                wrong.append(f"{type(e).__name__}: {e}")
            finally:
                sys.settrace(None)

        old = sys.getswitchinterval()
        sys.setswitchinterval(1e-5)
        try:
            ts = [threading.Thread(target=work, args=(k,), daemon=True) for k in range(len(plans))]
            for t in ts:
                t.start()
            for t in ts:
                t.join(120)
        finally:
            sys.setswitchinterval(old)
        if any(t.is_alive() for t in ts):
            raise Violation("decoding in several threads does not finish")
        if wrong:
            ctx.fail("decoding in several threads fails", errors=wrong[:3])
        for k, g in enumerate(got):
            for j, i, v in g:
                ctx.expect(v == results[j][i], "decoding differs while other threads decode", spec=jobs[j][0],
                           input=jobs[j][1][i], alone=results[j][i], threaded=v, own_decoder=plans[k][1])
                ctx.case((jobs[j][0], jobs[j][1][i], "thread", rep, k), nontrivial=True)
        ctx.count("thread_switches", len(trail))
        ctx.count("thread_groups")


def run(ctx):
    rng = ctx.rng
    shared_dict(ctx, [("XXZZ", [3, (3, 5), (5, 3), 5.0]), ("REP", [3, (5, 1), 7]), ("REPP", [5, (1, 3), 3])])
    n = 50 if ctx.quick else 80
    specs = list(SPECS)
    if not ctx.quick:
        specs += [("XXZZ", 5, 5, 4), ("XZZX", 7, 7, 2), ("XXZZ", 9, 9, 1), ("REPP", 1, 11, 3), ("XXZZ", 3, 9, 3)]
    jobs, results = [], []
    for kind, dh, dw, T in ctx.order(specs):
        code = Code(kind, dh, dw)
        ins = inputs(rng, code, T, n)
        res = history(ctx, code, T, ins)
        jobs.append(((kind, dh, dw, T), ins))
        results.append(res)
        equivalents(ctx, code, T, ins, res)
        if ctx.out_of_time(0.7):
            break
    threads(ctx, jobs, results)
    # other processes, other hash seeds, other orders
    for seed in ("1", "77") if ctx.quick else ("1", "2", "77", "12345", "random"):
        perm = []
        shuffled = []
        turn = list(zip(jobs, results))[::-1]  # whichever decoder came first here comes last there
        if seed != "1":
            rng.shuffle(turn)
        for (spec, ins), _ in turn:
            o = list(range(len(ins)))
            rng.shuffle(o)
            perm.append(o)
            shuffled.append((spec, [ins[i] for i in o]))
        env = dict(os.environ, PYTHONHASHSEED=seed)
        p = subprocess.run([sys.executable, "-c", "from mon.checks import c12; c12.main()"], input=json.dumps(shuffled),
                           capture_output=True, text=True, env=env)
        if p.returncode:
            ctx.fail("decoding failed in another process", stderr=p.stderr[-1500:])
        for ((spec, ins), want), o, got in zip(turn, perm, json.loads(p.stdout.splitlines()[-1])):
            for k, i in enumerate(o):
                ctx.expect(got[k] == want[i], "decoding differs in another process", spec=spec, input=ins[i],
                           here=want[i], there=got[k], hash_seed=seed)
                ctx.case((spec, ins[i], "process", seed), nontrivial=True)
        ctx.count("processes")
