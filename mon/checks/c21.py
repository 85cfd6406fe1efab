"""C21: data files of random sizes, rounds and points (written by the library's own saves and independently of it) are
loaded and plotted; a monitor compares what was loaded with the file's content and reads back the artists on every axes
of every open figure after each plot, and what was on the figure at the moment it was saved."""
import contextlib
import io
import os
import re
import shutil
import tempfile

import matplotlib.figure
import matplotlib.pyplot as plt
import numpy as np
from qtcodes import RepetitionDecoder, RotatedDecoder, TopologicalAnalysis, TopologicalBatchAnalysis, TopologicalBenchmark

META = dict(rule="one evaluation = one file loaded, or one plot read back from the axes; distinct by (points, size, plot "
                 "arguments)", min_nontrivial=60)


def new_data(rng):
    n = rng.choice([1, 2, 3, 5, 8, 30, 140])
    xs = sorted(rng.sample(range(1, 500), n) if rng.random() < 0.7 else [0] + rng.sample(range(1, 500), n - 1))
    if rng.random() < 0.4:  # as np.linspace or np.logspace make them
        xs = sorted(rng.uniform(1e-6, 500) for _ in range(n))
    ys = [rng.choice([0.0, 1.0, rng.random(), rng.random() * 10 ** -rng.randint(1, 9)]) for _ in xs]
    return [x / 1000 for x in xs], ys


def new_code(rng, used):
    while True:
        if rng.random() < 0.75:
            kind, d = "rot", (rng.choice([1, 3, 5, 7, 11, 13, 101]), rng.choice([1, 3, 5, 7, 11, 63]))
            if d == (1, 1):
                continue
        else:
            kind, d = "rep", (rng.choice([3, 5, 9, 11, 21]), 1)
        T = rng.choice([1, 2, 3, 10, 100, 128])
        if (d, T) not in used:
            used.add((d, T))
            return kind, d, T


def decoder(kind, d, T):
    """The real decoder if it is cheap to build, else one that only has parameters."""
    if d[0] * d[1] * T > 40:
        class Stand:
            params = {"d": d, "T": T}
        return Stand()
    return (RotatedDecoder if kind == "rot" else RepetitionDecoder)({"d": d, "T": T})


def write(ctx, spec, xs, ys, where):
    """Save points through the library, one by one in random order. Returns the file's path."""
    cwd = os.getcwd()
    os.chdir(where)
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            b = TopologicalBenchmark(decoder=decoder(*spec), circ=None)
            for i in ctx.rng.sample(range(len(xs)), len(xs)):
                b.append_data(xs[i], ys[i])
        return os.path.join(where, b.filename)
    finally:
        os.chdir(cwd)


def same(a, b):
    a, b = [float(x) for x in a], [float(x) for x in b]
    return a == b


def check_loaded(ctx, an, spec, xs, ys):
    _, d, T = spec
    got = an.params.get("d")
    ctx.expect(tuple(got) == tuple(d) and an.params.get("T") == T, "a loaded benchmark has another size or number of rounds",
               params=an.params, saved=[d, T])
    ctx.expect(same(an.data["physical_error_rates"], xs) and same(an.data["logical_error_rates"], ys),
               "a loaded benchmark has other points than were saved", loaded=an.data, saved=[xs, ys])


def lines():
    """Every line of every axes of every open figure."""
    out = {}
    for n in plt.get_fignums():
        for ax in plt.figure(n).axes:
            for ln in ax.lines:
                out[id(ln)] = (ax, ln)
    return out


def points(ln):
    return [(float(x), float(y)) for x, y in zip(np.atleast_1d(ln.get_xdata(orig=True)), np.atleast_1d(ln.get_ydata(orig=True)))]


def close(a, b):
    return len(a) == len(b) and all(abs(x - u) <= 1e-12 * max(1, abs(u)) and abs(y - v) <= 1e-12 * abs(v)
                                    for (x, y), (u, v) in zip(a, b))


def single(ctx, rng, tmp, k):
    with contextlib.ExitStack() as st:
        used = set()
        spec = new_code(rng, used)
        xs, ys = new_data(rng)
        case = dict(code=spec, points=len(xs))
        st.enter_context(ctx.guard(**case))
        where = tempfile.mkdtemp(dir=tmp)
        path = write(ctx, spec, xs, ys, where)
        before = open(path, "rb").read()
        an, other = TopologicalAnalysis(path), TopologicalAnalysis()
        an.load_data()
        check_loaded(ctx, an, spec, xs, ys)
        ctx.expect(not other.data and not other.params, "loading one benchmark changed another", data=other.data,
                   params=other.params)
        ctx.case((spec, tuple(xs), tuple(ys)), sample=dict(case, d=an.params["d"], T=an.params["T"]))
        ctx.count("loaded")
        for _ in range(4):
            log, per_round = rng.choice([True, False]), rng.choice([True, False])
            how = rng.choice(["none", "fig", "ax", "fig+ax", "fig+ax", "ax"])
            plt.close("all")
            fig = axs = ax = None
            if how != "none":
                fig = plt.figure()
                if how != "fig":
                    axs = np.atleast_1d(fig.subplots(1, rng.randint(1, 3)))
                    ax = axs[rng.randrange(len(axs))]
                if rng.random() < 0.5:
                    plt.figure().subplots()  # another figure is the current one
                elif axs is not None:
                    plt.sca(axs[rng.randrange(len(axs))])
            kw = {}
            if rng.random() < 0.7:
                kw["label"] = f"curve {rng.randint(0, 99)}"
            if rng.random() < 0.5:
                kw["color"] = rng.choice(["red", "#00ff00", "k"])
            if not (log and per_round is False and rng.random() < 0.3):
                kw2 = dict(kw, log=log, per_round=per_round)
            else:
                kw2, log, per_round = dict(kw), True, False  # the documented defaults
            args = dict(how=how, **kw2)
            if how in ("fig", "fig+ax"):
                kw2["fig"] = fig
            if how in ("ax", "fig+ax"):
                kw2["ax"] = ax
            n_before = set(lines())
            with ctx.guard(plot=args, **case):
                an.plot(**kw2)
                new = [v for i, v in lines().items() if i not in n_before]
                ctx.expect(len(new) == 1, "a plot did not draw exactly one curve", curves=len(new))
                drawn_on, ln = new[0]
                if ax is not None:
                    ctx.expect(drawn_on is ax, "a plot was not drawn on the axes given")
                elif fig is not None:
                    ctx.expect(drawn_on.figure is fig, "a plot was not drawn on the figure given")
                want = [(x, y / (spec[2] if per_round else 1)) for x, y in zip(xs, ys)]
                ctx.expect(close(points(ln), want), "a curve is drawn with other points than were loaded", drawn=points(ln),
                           wanted=want)
                scale = "log" if log else "linear"
                ctx.expect(drawn_on.get_xscale() == scale and drawn_on.get_yscale() == scale, "wrong scale of the axes",
                           x=drawn_on.get_xscale(), y=drawn_on.get_yscale())
                if "label" in kw:
                    ctx.expect(ln.get_label() == kw["label"], "a curve has another label than requested", label=ln.get_label())
                if "color" in kw:
                    ctx.expect(matplotlib.colors.same_color(ln.get_color(), kw["color"]), "a curve has another colour",
                               color=ln.get_color())
                check_loaded(ctx, an, spec, xs, ys)
            ctx.case((spec, tuple(xs), tuple(ys), str(args)))
            ctx.count("plots")
        ctx.expect(open(path, "rb").read() == before, "an analysis changed the data file")
        # more points are saved; loading again shows them
        xs2, ys2 = xs + [0.6], ys + [0.25]
        write(ctx, spec, [0.6], [0.25], where)
        an.load_data()
        check_loaded(ctx, an, spec, xs2, ys2)
        ctx.count("reloads")
        shutil.rmtree(where)


@contextlib.contextmanager
def saved_figures(record):
    real = matplotlib.figure.Figure.savefig

    def savefig(self, fname, *a, **k):
        record.append((self, str(fname), [(ax, list(ax.lines), ax.get_xscale(), ax.get_yscale()) for ax in self.axes]))
        return real(self, fname, *a, **k)
    matplotlib.figure.Figure.savefig = savefig
    try:
        yield
    finally:
        matplotlib.figure.Figure.savefig = real


def batch(ctx, rng, tmp, k):
    used, model = set(), {}
    root = tempfile.mkdtemp(dir=tmp)
    base = rng.choice(["results", "run[1]", "a b", "20211224", "r*s"])
    where = os.path.join(root, base)
    os.makedirs(where)
    n = 45 if k == 3 else rng.choice([1, 2, 3, 5, 9, 14, 26])
    specs = [new_code(rng, used) for _ in range(n)]
    with ctx.guard(directory=base, codes=specs):
        for s in specs:
            xs, ys = new_data(rng)
            path = write(ctx, s, xs, ys, where)
            if rng.random() < 0.3:  # renamed by the user
                new = os.path.join(where, rng.choice(["old_", "x", "Z-"]) + os.path.basename(path))
                os.rename(path, new)
                path = new
            model[os.path.realpath(path)] = (s, xs, ys)
            if rng.random() < 0.15:  # a copy whose name differs a little, e.g. in case only, with other points
                keep, more = s, new_data(rng)
                path2 = write(ctx, keep, *more, tempfile.mkdtemp(dir=tmp))
                name = os.path.basename(path)
                new = os.path.join(where, rng.choice([name.upper()[:-4] + ".npz", name.replace(" ", ""), name[:-4] + "_2.npz",
                                                      name[:-4] + ".2.npz"]))
                if not os.path.exists(new):
                    os.rename(path2, new)
                    model[os.path.realpath(new)] = (keep, *more)
                    ctx.count("similar_names")
        # things that are not data files of this directory
        for name in rng.sample(["notes.txt", "d_(3, 3)_T_1.npz.bak", "d_(3, 3)_T_1.npz.99.tmp", "npz", "comparison.pdf"], 3):
            open(os.path.join(where, name), "w").write("x")
        for sib in (base + "2", base + "_old", "r1s"):
            os.makedirs(os.path.join(root, sib), exist_ok=True)
            write(ctx, ("rot", (3, 5), 7), [0.1], [0.2], os.path.join(root, sib))
        write(ctx, ("rot", (3, 5), 7), [0.1], [0.2], root)
        shutil.copy(os.path.join(root, "d_(3, 5)_T_7.npz"), os.path.join(root, base + "_x.npz")) \
            if os.path.exists(os.path.join(root, "d_(3, 5)_T_7.npz")) else None
        os.makedirs(os.path.join(where, "sub"))
        write(ctx, ("rot", (3, 5), 7), [0.1], [0.2], os.path.join(where, "sub"))
        raw = {p: open(p, "rb").read() for p in model}
        outside = sorted(os.listdir(root))
        form = rng.choice(["slash", "plain", "relative", "relative-slash", "cwd"])
        cwd = os.getcwd()
        dirname = {"slash": where + "/", "plain": where, "relative": base, "relative-slash": base + "/", "cwd": ""}[form]
        os.chdir(where if form == "cwd" else root)
        rec = []
        try:
            with ctx.guard(directory=base, codes=specs, form=form):
                plt.close("all")
                b = TopologicalBatchAnalysis(dirname)
                also = TopologicalBatchAnalysis(os.path.join(where, "sub")) if rng.random() < 0.5 else None
                got = {os.path.realpath(a.filename): a for a in b.analyses}
                ctx.expect(len(got) == len(b.analyses), "a batch analysis loaded a file twice")
                ctx.expect(set(got) == set(model), "a batch analysis did not load exactly the data files of its directory",
                           extra=[os.path.relpath(p, root) for p in set(got) - set(model)],
                           missing=[os.path.relpath(p, root) for p in set(model) - set(got)])
                for p, a in got.items():
                    check_loaded(ctx, a, *model[p])
                if also is not None:
                    ctx.expect(len(also.analyses) == 1, "a second batch analysis did not load its one file")
                    check_loaded(ctx, also.analyses[0], ("rot", (3, 5), 7), [0.1], [0.2])
                    ctx.count("two_batches")
                hs = [a.params["d"][0] for a in b.analyses]
                ctx.expect(hs == sorted(hs), "a batch analysis is not ordered by increasing code height", heights=hs)
                with saved_figures(rec), contextlib.redirect_stdout(io.StringIO()):
                    b.plot()
                for _, s in [("", None)]:
                    for p, a in got.items():
                        check_loaded(ctx, a, *model[p])
                figs = {}
                for fig, fname, axes in rec:
                    figs[os.path.realpath(fname)] = axes
                drawn = 0
                for fname, axes in figs.items():
                    ctx.expect(os.path.dirname(fname) == os.path.realpath(where), "a comparison was saved outside the directory",
                               file=fname)
                    ctx.expect(os.path.getsize(fname) > 0, "an empty comparison was saved")
                    scale = "log" if "log" in os.path.basename(fname) else "linear"
                    everything = [(ln, x, y) for _, lns, x, y in axes for ln in lns]
                    left = list(everything)
                    order = []
                    for a in b.analyses:
                        s, xs, ys = model[os.path.realpath(a.filename)]
                        want = list(zip(xs, ys))
                        mine = [e for e in left if close(points(e[0]), want)
                                and [int(v) for v in re.findall(r"\d+", e[0].get_label())] == [*s[1], s[2]]]
                        ctx.expect(len(mine) >= 1, "a comparison lacks a curve with the saved points, labelled with its own "
                                   "parameters", wanted=want, parameters=s,
                                   drawn=[(e[0].get_label(), points(e[0])) for e in everything])
                        ctx.expect(mine[0][1] == mine[0][2] == scale, "a comparison has the wrong scale", x=mine[0][1],
                                   y=mine[0][2], file=os.path.basename(fname))
                        left = [e for e in left if e[0] is not mine[0][0]]
                        drawn += 1
                    # what is left is the breakeven line: logical rate = physical rate
                    for e in left:
                        ctx.expect(all(abs(x - y) < 1e-12 for x, y in points(e[0])), "a comparison has a curve of no data file",
                                   label=e[0].get_label(), points=points(e[0]))
                ctx.expect(len(figs) == 2 and {"log" in os.path.basename(f) for f in figs} == {True, False},
                           "the comparison was not saved once linear and once logarithmic", files=sorted(figs))
                ctx.expect(all(open(p, "rb").read() == c for p, c in raw.items()), "an analysis changed a data file")
                ctx.expect(sorted(os.listdir(root)) == outside, "an analysis left files outside its directory",
                           files=os.listdir(root))
        finally:
            os.chdir(cwd)
        ctx.case((form, base, tuple(specs), str(model.values())), sample=dict(form=form, codes=specs, curves=drawn))
        ctx.count("batches")
        ctx.count("curves", drawn)
    shutil.rmtree(root)


def run(ctx):
    rng = ctx.rng
    tmp = tempfile.mkdtemp(prefix="c21")
    plt.rcParams["figure.max_open_warning"] = 0
    plt.rcParams["savefig.dpi"] = 30
    for k in range(80 if ctx.quick else 400):
        single(ctx, rng, tmp, k)
        if ctx.out_of_time(0.45):
            break
    for k in range(30 if ctx.quick else 150):
        batch(ctx, rng, tmp, k)
        if ctx.out_of_time(0.95):
            break
    plt.close("all")
    shutil.rmtree(tmp)
