"""Plots of the lab (C21)."""
import re
import types
import numpy as np
from ..registry import contract
from ..term import T, const, var, add, sub, mul, div, scale, coerce, fun, ONE
from ..arr import Arr
from .. import term as TM
from .. import seq
from .labc import lab, LabMaterial, Solver, Patched, _shims, t_defgrad, CASES


class Anything:
    """an object of the plot whose methods have no effect on the drawn data"""
    _hvc_carry = True

    def __init__(self, **kw):
        self.__dict__.update(kw)

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return lambda *a, **k: Anything()

    def __iter__(self):
        return iter(())


class Line(Anything):
    def set_label(self, s):
        self.kw["label"] = s

    def get_label(self):
        return self.kw.get("label")

    def get_color(self):
        return self.kw.get("color", "C0")


class Axes(Anything):
    """assumed contract of the axes of matplotlib: every plot(x, y, *args, **kwargs) adds one line through the points"""

    def __init__(self, fig):
        super().__init__(figure=fig, lines=[], texts=[], titles=[], xl="", yl="", transAxes=object())

    def get_figure(self):
        return self.figure

    def plot(self, x, y, *args, **kw):
        self.lines.append(Line(x=x, y=y, args=args, kw=dict(kw)))
        return [self.lines[-1]]

    def text(self, x, y, s, *a, **k):
        self.texts.append(s)
        return Anything()

    def annotate(self, text, *a, **k):
        self.texts.append(text)
        return Anything()

    def set_title(self, s, *a, **k):
        self.titles.append(s)

    def get_title(self):
        return "".join(self.titles[-1:])

    def set_xlabel(self, s, *a, **k):
        self.xl = s

    def set_ylabel(self, s, *a, **k):
        self.yl = s

    def get_xlabel(self):
        return self.xl

    def get_ylabel(self):
        return self.yl

    def set(self, **kw):
        for k, v in kw.items():
            getattr(self, "set_" + k)(v)


class Figure(Anything):
    def __init__(self):
        super().__init__(axes=[])

    def add_subplot(self, *a, **k):
        ax = Axes(self)
        self.axes.append(ax)
        return ax

    subplots = add_subplot

    def gca(self):
        return self.axes[-1] if self.axes else self.add_subplot()


class Pyplot(types.ModuleType):
    made = []

    def figure(self, *a, **k):
        self.made.append(Figure())
        return self.made[-1]

    def subplots(self, *a, **k):
        f = self.figure()
        return f, f.add_subplot()

    def gcf(self):
        return self.made[-1] if self.made else self.figure()

    def gca(self):
        return self.gcf().gca()


PLT = Pyplot("matplotlib.pyplot")


def _canvas():
    mpl = types.ModuleType("matplotlib")
    mpl.pyplot = PLT
    return dict(_shims(), **{"matplotlib": mpl, "matplotlib.pyplot": PLT})


class Canvas:
    """a plot on the recorder (symbolic) or on matplotlib itself (bounded runs)"""

    def __init__(self, S):
        self.S = S

    def __enter__(self):
        if self.S.concrete:
            import matplotlib
            matplotlib.use("Agg")
            import matplotlib.pyplot as plt
            self.plt = plt
            plt.close("all")
        else:
            self.plt = PLT
            PLT.made = []
            self.shown = []
            T.shown = self.shown
        return self

    def __exit__(self, *a):
        if self.S.concrete:
            self.plt.close("all")
        else:
            T.shown = None

    def lines(self, ax):
        """(x, y, label, style) of each line"""
        if self.S.concrete:
            return [(np.asarray(l.get_xdata(orig=True)), np.asarray(l.get_ydata(orig=True)), l.get_label(),
                     (l.get_linestyle(), l.get_linewidth())) for l in ax.get_lines()]
        out = []
        for l in ax.lines:
            lw = l.kw.get("lw", l.kw.get("linewidth"))
            ls = l.kw.get("ls", l.kw.get("linestyle", l.args[0] if l.args else None))
            out.append((l.x, l.y, l.kw.get("label"), (ls, lw)))
        return out

    def text(self, ax):
        return "\n".join(t if isinstance(t, str) else t.get_text() for t in ax.texts)

    def value(self, label, s, term, digits=0.0):
        """a number of the text is the value of the term"""
        S = self.S
        if S.concrete:
            try:
                v = float(s)
            except ValueError:
                return S.fail(label, f"{s!r} is no number")
            e = float(S.evaluate(term)) if isinstance(term, T) else float(term)
            S.checks += 1
            if not (v == e or np.isfinite(e) and abs(v - e) <= 0.06 * abs(e) + digits or np.isnan(v) and np.isnan(e)):
                S.fail(label, f"{s} is written, the value is {e!r}")
        else:
            m = re.fullmatch("⟦([0-9]+)⟧", s)
            S.ensure_true(label + ": a value is written", m is not None, s)
            if m:
                from ..world import Obl
                t = term if isinstance(term, T) else coerce(Arr.of(term).a[()])
                S.obls.append(Obl(label, "eq", a=self.shown[int(m.group(1))], b=t))


def drawn(S, label, line, x, y, name, tail):
    S.ensure(label + ": horizontal axis", line[0], x, tail=frozenset([tail]) if not S.concrete else tail)
    S.ensure(label + ": vertical axis", line[1], y, tail=frozenset([tail]) if not S.concrete else tail)
    # (matplotlib gives lines without a label an internal name)
    S.ensure_true(label + ": label", line[2] == name or S.concrete and name == "" and line[2].startswith("_child"), f"{line[2]!r}, expected {name!r}")


def sim_stress(case, x, par, names):
    f = t_defgrad(case, x)
    a = [f[i][j] for i in range(3) for j in range(3)] + [par[n] for n in sorted(names)]
    P = lambda i: fun(f"P{i}{i}", (0,) * len(a), a)
    return sub(P(0), mul(P(2), div(f[2][2], f[0][0])))


def _plot_cases(tier):
    for what in ("force", "stress", "simulation"):
        for how in ("new", "given", "options", "empty", "changed"):
            yield dict(what=what, how=how)


PLOTS = ["lab._plotting.LabPlotter.__init__", "lab._plotting.LabPlotter.plot_force_displacement", "lab._plotting.LabPlotter.plot_stress_stretch"]


@contract("C21", PLOTS, _plot_cases, shims=_canvas(), runs=20, note="the axes of matplotlib are an assumed contract (the bounded runs use matplotlib itself)")
def d_plot(S, what, how):
    """a plot draws the data of its object: force over displacement, stress over stretch"""
    S.fix_rank(1, "A")
    L = lab(S)
    x = S.arr("d", (), "A") if what != "simulation" else S.arr("x", (), "A", positive=True)
    f = S.arr("f", (), "A")
    if what == "simulation":
        names, ps = ["b", "a"], [S.scalar("pb"), S.scalar("pa")]
        o = S.guard("Simulation", L.Simulation, S.guard("load case", L.Planar), x.val, list(names), lambda **kw: LabMaterial(S, sorted(names), **kw), ps)
        name = o.label
        tx, ty = x.t[()], sim_stress("Planar", x.t[()], {"b": var("pb"), "a": var("pa")}, names)
    else:
        o = S.guard("Experiment", L.Experiment, "own label", x.val, f.val, area=S.scalar("area", positive=True), length=S.scalar("length", positive=True))
        name = "own label"
        tx, ty = x.t[()], f.t[()]
        if what == "stress":
            tx, ty = add(ONE, div(tx, var("length", True))), div(ty, var("area", True))
    keep = S.snapshot([x.val, f.val])
    with Canvas(S) as c:
        plot = o.plot_force_displacement if what == "force" else o.plot_stress_stretch
        args, kw, ax, n = (), {}, None, 0
        if how == "changed":     # plotted before its data are changed
            S.guard("plot (before)", lambda: plot(ax=c.plt.subplots()[1]))
            if what == "simulation":
                o.parameters = [S.scalar("qb"), S.scalar("qa")]
                ty = sim_stress("Planar", x.t[()], {"b": var("qb"), "a": var("qa")}, names)
            else:
                g = S.arr("g", (), "A")
                o.force = g.val
                ty = div(g.t[()], var("area", True)) if what == "stress" else g.t[()]
        if how in ("new", "changed"):      # other axes exist
            c.plt.subplots()[1].plot([1.0, 2.0], [3.0, 4.0], label="other")
        else:
            ax = c.plt.subplots()[1]
            if how == "given":      # not the current axes
                c.plt.subplots()
            n = 1
            ax.plot([1.0, 2.0], [3.0, 4.0], label="before")
            kw["ax"] = ax
        if how == "options":
            args, kw = ("--",), dict(kw, lw=2.5, label="another label", xlabel="abscissa", ylabel="ordinate")
            name = "another label"
        elif how == "empty":
            kw, name = dict(kw, label="", xlabel="", ylabel=""), ""
        r = S.guard("plot", lambda: plot(*args, **kw))
        ok = isinstance(r, tuple) and len(r) == 2
        S.ensure_true("figure and axes are returned", ok, str(type(r)))
        if not ok:
            return
        S.ensure_true("the figure of the axes is returned", r[0] is r[1].get_figure())
        S.ensure_true("the given axes are used", ax is None or r[1] is ax)
        S.ensure_true("a new figure is used", ax is not None or len(r[0].axes) == 1)
        lines = c.lines(r[1])
        S.ensure_true("one line is added", len(lines) == n + 1, f"{len(lines)} lines")
        if len(lines) != n + 1:
            return
        drawn(S, "line", lines[-1], tx, ty, name, "A")
        xl, yl = r[1].get_xlabel(), r[1].get_ylabel()
        if how == "options":
            S.ensure_true("labels of the axes", (xl, yl) == ("abscissa", "ordinate"), f"{xl}, {yl}")
            S.ensure_true("options of the line", lines[-1][3] == ("--", 2.5), f"{lines[-1][3]}")
        elif how == "empty":
            S.ensure_true("labels of the axes", (xl, yl) == ("", ""), f"{xl}, {yl}")
        else:
            S.ensure_true("labels of the axes", ("Displacement" if what == "force" else "Stretch") in xl and ("Force" if what == "force" else "Force per undeformed area") in yl, f"{xl}, {yl}")
        S.ensure_true("the data are unmodified", S.unchanged(keep))


@contract("C21", PLOTS + ["lab._optimize.Optimize.plot"], [dict(n=n, title=t, late=l) for n in (1, 2, 3, "any") for t, l in ((None, "none"), ("A title", "none"), (None, "again"))],
          shims=_canvas(), transform=seq.transform, runs=8, note="scipy.optimize.curve_fit and the axes of matplotlib are assumed contracts")
def d_fit(S, n, title, late):
    """the plot of a fit draws each simulation at the fitted parameters and its experiment, and states parameters, errors and the quality of the fit"""
    L = lab(S)
    names, cases = ["b", "a"], list(CASES)
    exps, sims, xs, want, keep = [], [], [], [], []
    generic = n == "any" and not S.concrete     # one generic pair stands for all pairs of lists of any length
    n = 1 if generic else 3 if n == "any" else n
    group = seq.Group("experiments", S)
    for k in range(n):
        t = "KLM"[k]
        S.fix_rank(1, t)
        d, f, x = S.arr(f"d{k}", (), t), S.arr(f"f{k}", (), t), S.arr(f"x{k}", (), t, positive=True)
        lk, ak = S.scalar(f"l{k}", positive=True), S.scalar(f"a{k}", positive=True)
        exps.append(S.guard("Experiment", L.Experiment, f"exp {k}", d.val, f.val, area=ak, length=lk))
        # (a simulation may have its own stretch)
        sims.append(S.guard("Simulation", L.Simulation, S.guard("load case", getattr(L, cases[k])), x.val, list(names), lambda **kw: LabMaterial(S, sorted(names), **kw)))
        xs.append(x)
        keep += [d.val, f.val, x.val]
        want.append((add(ONE, div(d.t[()], var(f"l{k}", True))), div(f.t[()], var(f"a{k}", True))))
    # the response of the fit is evaluated at the stretches of the experiments
    for k, e in enumerate(exps):
        S.requires(TM.compare(">", want[k][0], const(0))) if not S.concrete else None
        if S.concrete:
            e.stretch = np.abs(e.stretch) + 0.1
            want[k] = (e.stretch, want[k][1])
    solver = Solver(S, 2)
    init = [S.scalar("i0"), S.scalar("i1")]
    with Patched(S, solver), Canvas(S) as c:
        opt = S.guard("Optimize", L.Optimize, *([seq.ObjSeq(group, x[0]) for x in (exps, sims)] if generic else [exps, sims]), init)
        def fit():
            S.guard("curve_fit", opt.curve_fit)
            if not S.concrete:      # (the relative deviation is defined)
                S.requires(*[TM.compare("!=", solver.calls[-1]["popt"].t[i], const(0)) for i in range(2)])
        fit()
        if late == "again":
            S.guard("plot", opt.plot)
            fit()
        last = solver.calls[-1]
        par = {m: last["popt"].t[i] for i, m in enumerate(names)}
        snap = S.snapshot(keep)
        r = S.guard("plot", opt.plot, **({"title": title} if title else {}))
        ok = isinstance(r, tuple) and len(r) == 2
        S.ensure_true("figure and axes are returned", ok, str(type(r)))
        if not ok:
            return
        S.ensure_true("the figure of the axes is returned", r[0] is r[1].get_figure())
        lines = c.lines(r[1])
        S.ensure_true("two lines per experiment", len(lines) == 2 * n, f"{len(lines)} lines")
        if len(lines) != 2 * n:
            return
        by = {l[2]: l for l in lines}
        for k in range(n):
            sl, el = by.get(f"exp {k}"), by.get(f"exp {k} (Experiment)")
            S.ensure_true(f"lines of experiment {k}", sl is not None and el is not None, str(sorted(map(str, by))))
            if sl is None or el is None:
                return
            x = xs[k].t[()]
            drawn(S, f"simulation {k}", sl, x, sim_stress(cases[k], x, par, names), f"exp {k}", "KLM"[k])
            if S.concrete:
                S.near(f"experiment {k}: stretch", el[0], want[k][0])
            else:
                S.ensure(f"experiment {k}: stretch", el[0], want[k][0], tail=frozenset(["KLM"[k]]))
            S.ensure(f"experiment {k}: stress", el[1], want[k][1], tail=frozenset(["KLM"[k]]) if not S.concrete else "KLM"[k])
        order = [l[2] for l in lines]
        S.ensure_true("order of the simulations and of the experiments", all(order.index(f"exp {k}{e}") < order.index(f"exp {k + 1}{e}") for k in range(n - 1) for e in ("", " (Experiment)")), str(order))
        S.ensure_true("title", r[1].get_title() == (title or ""), r[1].get_title())
        text = c.text(r[1])
        for i, m in enumerate(names):
            hit = re.findall(rf"(?:^|\n){m} = (\S+) \$\\pm\$ (\S+)", text)
            S.ensure_true(f"parameter {m} is stated once", len(hit) == 1, text)
            if len(hit) == 1:
                c.value(f"stated value of {m}", hit[0][0], par[m])
                c.value(f"stated deviation of {m}", hit[0][1], scale(last["sd"][i], 2))
        for s, v in ((r"Residuals = +(\S+)", opt.norm_residuals()), (r"Parameters = +(\S+)%", opt.mean_relative_std())):
            hit = re.findall(s, text)
            S.ensure_true("quality of the fit is stated", len(hit) == 1, text)
            if len(hit) == 1:
                c.value("stated " + s.split(" ")[0], hit[0], v, digits=0.06 if "%" in s else 0.0)
        S.ensure_true("the data are unmodified", S.unchanged(snap))
