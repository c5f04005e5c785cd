"""C30: the charts and figures derived from a history show exactly what it recorded, where and only where asked."""
import itertools
import os

from .. import env, harness as H, units as U
from ..pictures import REAL, SHOTS, Scratch, differs, picture, plt, settings
from ..report import Report
import numpy as np
from mealpy.utils.agent import Agent
from mealpy.utils.history import History
from mealpy.utils.target import Target

def agent(sol, objs, w=None):
    t = Target(objectives=list(objs), weights=w)
    return Agent(solution=np.array(sol, dtype=float), target=t)


def history(series=None, objs=None, pops=None):
    h = History(log_to=None)
    if series is not None:
        h.list_global_best_fit, h.list_current_best_fit, h.list_epoch_time, h.list_diversity, h.list_exploration, h.list_exploitation = series
    if objs is not None:
        h.list_global_best = [agent([0], o) for o in objs[0]]
        h.list_current_best = [agent([0], o) for o in objs[1]]
    if pops is not None:
        h.list_population = [[agent(s, [0.0]) for s in p] for p in pops]
    return h


def frozen(h):
    out = []
    for k, v in sorted(vars(h).items()):
        if not k.startswith("list_"):
            continue
        if k == "list_population":
            out.append((k, [[(a.solution.tobytes(), repr(a.target.fitness), a.target.objectives.tobytes()) for a in p] for p in v]))
        elif len(v) and isinstance(v[0], Agent):
            out.append((k, [(a.solution.tobytes(), repr(a.target.fitness), np.asarray(a.target.objectives).tobytes()) for a in v]))
        else:
            out.append((k, repr(list(v))))
    return repr(out)


# ---- what each chart must show ------------------------------------------------------------------------------------
def want_line(y, title, yl, legend=None, color=None, style=None, xl="#Iteration"):
    return dict(axes=[dict(title=title, x=xl, y=yl, legend=None if legend is None else [legend],
                           lines=[dict(x=range(len(y)), y=y, label=legend, color=color, style=style)])], sup="")


def want_multi(ys, labels, title, yl, xl="#Iteration", xs=None):
    return dict(axes=[dict(title=title, x=xl, y=yl, legend=list(labels),
                           lines=[dict(x=range(len(y)) if xs is None else xs[i], y=y, label=labels[i]) for i, y in enumerate(ys)])], sup="")


def want_objectives(rows, title, ylabels=None, xl="#Iteration"):
    n = len(rows[0])
    if n == 1:
        return dict(axes=[dict(title=title, x=xl, y=ylabels[0] if ylabels else "Objective Value", legend=None,
                               lines=[dict(x=range(len(rows)), y=[r[0] for r in rows])])], sup="")
    return dict(axes=[dict(title="", x=xl if i == n - 1 else "", y=ylabels[i] if ylabels else "Objective %d" % (i + 1), legend=None,
                           lines=[dict(x=range(len(rows)), y=[r[i] for r in rows])]) for i in range(n)], sup=title)


METHODS = {
    "global_best_fitness": (lambda h: want_line(h.list_global_best_fit, "Global Best Fitness", "Function Value"), "global-best-fitness-chart"),
    "local_best_fitness": (lambda h: want_line(h.list_current_best_fit, "Local Best Fitness", "Function Value"), "local-best-fitness-chart"),
    "runtime": (lambda h: want_line(h.list_epoch_time, "Runtime chart", "Second"), "runtime-chart"),
    "exploration_exploitation": (lambda h: want_multi([h.list_exploration, h.list_exploitation], ["Exploration %", "Exploitation %"],
                                                      "Exploration vs Exploitation Percentages", "Percentage"), "exploration-exploitation-chart"),
    "diversity": (lambda h: want_multi([h.list_diversity], ["Algorithm"], "Diversity Measurement Chart", "Diversity Measurement"), "diversity-chart"),
    "global_objectives": (lambda h: want_objectives([a.target.objectives for a in h.list_global_best], "Global Objectives Chart"), "global-objectives-chart"),
    "local_objectives": (lambda h: want_objectives([a.target.objectives for a in h.list_current_best], "Local Objectives Chart"), "local-objectives-chart"),
    "trajectory": (lambda h: want_trajectory(h, (1, 2, 3, 4, 5), (1, 2), "Trajectory of some agents"), "trajectory-chart"),
}
CONVERGENCE = ("global_best_fitness", "local_best_fitness", "runtime")


def want_trajectory(h, agents, dims, title):
    agents, dims = sorted(set(agents)), sorted(set(dims))
    if not h.list_population or len(h.list_population) < 2 or len(dims) not in (1, 2) or not 1 <= len(agents) <= 10:
        return None
    n, d = min(len(p) for p in h.list_population), len(h.list_population[0][0].solution)
    if agents[0] < 1 or agents[-1] > n or dims[0] < 1 or dims[-1] > d:
        return None
    path = lambda a, k: [p[a - 1].solution[k - 1] for p in h.list_population]
    labels = ["Agent %d" % a for a in agents]
    if len(dims) == 1:
        return want_multi([path(a, dims[0]) for a in agents], labels, title, "x%d" % dims[0])
    return want_multi([path(a, dims[1]) for a in agents], labels, title, "x%d" % dims[1], "x%d" % dims[0], [path(a, dims[0]) for a in agents])


def chart(c, sc, h, name, want, files, feats=(), **kw):
    """Draw one chart; judge the picture, the files and everything that had to stay as it was."""
    del SHOTS[:]
    f0, open0, rc0 = frozen(h), plt.get_fignums(), settings()
    cur0 = plt.gcf().number if open0 else None
    pics0 = [repr(picture(plt.figure(n))) for n in open0]
    if cur0 is not None:
        plt.figure(cur0)
    had = sc.files()
    c.add(charts=1)
    err = None
    try:
        getattr(h, "save_%s_chart" % name)(**kw)
    except Exception as e:
        err = e
    if frozen(h) != f0:
        c.bad("history-changed", "%s changed the history it draws" % name, feats)
    if plt.get_fignums() != open0:
        c.bad("figures", "figures open before %s: %s, after: %s" % (name, open0, plt.get_fignums()), feats)
    elif open0:
        if plt.gcf().number != cur0:
            c.bad("figures", "%s switched the current figure" % name, feats)
        if [repr(picture(plt.figure(n))) for n in open0] != pics0:
            c.bad("figures", "%s drew on a figure of the caller" % name, feats)
        plt.figure(cur0)
    if settings() != rc0:
        c.bad("settings", "%s changed matplotlib's settings" % name, feats)
    now = sc.files()
    if want is None:
        if not isinstance(err, ValueError):
            c.bad("accepts-impossible", "%s%r: %r instead of ValueError" % (name, kw, err), feats)
        if now != had:
            c.bad("files", "%s refused %r but wrote %s" % (name, kw, sorted(set(now) - set(had))), feats)
        return
    if err is not None:
        c.bad("crash-" + type(err).__name__, "%s%r: %s" % (name, kw, err), feats)
        return
    if sorted(set(had) | set(files)) != now:
        c.bad("files", "%s%r wrote %s instead of %s" % (name, kw, sorted(set(now) - set(had)), files), feats)
    if len(SHOTS) != len(files):
        c.bad("files", "%s%r saved %d pictures for %d files" % (name, kw, len(SHOTS), len(files)), feats)
    for fn, pic in SHOTS:
        d = differs(pic, want)
        if d:
            c.bad("picture", "%s%r: %s" % (name, kw, d), feats)
            break
    if REAL[0]:
        for f in files:
            head = open(f, "rb").read(8)
            ok = {".png": head == b"\x89PNG\r\n\x1a\n", ".pdf": head[:5] == b"%PDF-", ".svg": head[:5] == b"<?xml"}[os.path.splitext(f)[1]]
            if not ok or os.path.getsize(f) < 1000:
                c.bad("files", "%s: %s is no %s file" % (name, f, os.path.splitext(f)[1]), feats)
    c.seen(name, repr(SHOTS))


def both(stem):
    return [stem + ".pdf", stem + ".png"]


def fill(n=3, objs=2, pop=5, dims=2):
    s = lambda k: [float(k * 10 + i * i) for i in range(n)]
    return history((s(1), s(2), s(3), s(4), s(5), s(6)), [[[float(r + 100 * o + 1000 * w) for o in range(objs)] for r in range(n)] for w in (0, 1)],
                   [[[float(e + 10 * a + 100 * d) for d in range(dims)] for a in range(pop)] for e in range(n)])


# ---- groups -------------------------------------------------------------------------------------------------------
def g_series(c, arg):
    """Every short series of awkward values, in every chart of one or two series."""
    name, n, first = arg
    alpha = [0.0, -1.5, 1e300, float("nan"), float("inf")]
    attr = dict(global_best_fitness=("list_global_best_fit",), local_best_fitness=("list_current_best_fit",), runtime=("list_epoch_time",),
                exploration_exploitation=("list_exploration", "list_exploitation"), diversity=("list_diversity",))[name]
    with Scratch() as sc:
        for rest in itertools.product(alpha, repeat=max(0, n - 1)):
            vals = ([alpha[first]] if n else []) + list(rest)
            h = fill(n)
            setattr(h, attr[0], vals)
            if len(attr) > 1:
                setattr(h, attr[1], [100 - v for v in vals])
            chart(c, sc, h, name, METHODS[name][0](h), both("out"), ("values=" + ",".join(map(str, vals)),), filename="out")
            sc.wipe()


def g_objectives(c, arg):
    with Scratch() as sc:
        for n_objs in arg:
            for n in (1, 2, 3):
                for name in ("global_objectives", "local_objectives"):
                    h = fill(n, n_objs)
                    f = ("objectives=%d" % n_objs, "epochs=%d" % n)
                    chart(c, sc, h, name, METHODS[name][0](h), both("o"), f, filename="o")
                    rows = [a.target.objectives for a in (h.list_global_best if name[0] == "g" else h.list_current_best)]
                    yl = ["name %d" % i for i in range(n_objs)]
                    chart(c, sc, h, name, want_objectives(rows, "T", yl, "X"), both("o2"), f + ("labels=own",), filename="o2", y_labels=yl, title="T", x_label="X")
                    sc.wipe()


def g_trajectory(c, arg):
    """Every choice of agents and dimensions around the ones there are."""
    pop, dims, epochs, agents_n = arg
    with Scratch() as sc:
        h = fill(epochs, 1, pop, dims)
        ask = [a for k in agents_n for a in itertools.product(range(0, pop + 2), repeat=k)]
        for agents in ask:
            for sel in [s for k in (0, 1, 2, 3) for s in itertools.product(range(0, dims + 2), repeat=k)]:
                w = want_trajectory(h, agents, sel, "Trajectory of some agents")
                chart(c, sc, h, "trajectory", w, both("t"), ("agents=%s" % (agents,), "dimensions=%s" % (sel,)), filename="t",
                      list_agent_idx=agents if len(sel) != 1 else list(agents), selected_dimensions=sel)
                sc.wipe()


def g_trajectory_many(c, arg):
    with Scratch() as sc:
        for pop in (9, 10, 11, 12):
            h = fill(2, 1, pop, 2)
            for k in range(8, 13):
                for lo in (0, 1, 2):
                    for sel in ((1,), (1, 2)):
                        agents = tuple(range(lo, lo + k))
                        chart(c, sc, h, "trajectory", want_trajectory(h, agents, sel, "T"), both("t"), ("agents=%s" % (agents,), "pop=%d" % pop),
                              filename="t", list_agent_idx=agents, selected_dimensions=sel, title="T")
                        sc.wipe()
        for sizes in itertools.product((3, 4, 5), repeat=3):                  # populations that shrink or grow
            h = history(pops=[[[float(100 * e + a)] for a in range(k)] for e, k in enumerate(sizes)])
            for agents in ((1,), (3,), (1, 3), (4,), (5,)):
                chart(c, sc, h, "trajectory", want_trajectory(h, agents, (1,), "Trajectory of some agents"), both("t"), ("sizes=%s" % (sizes,), "agents=%s" % (agents,)),
                      filename="t", list_agent_idx=agents, selected_dimensions=(1,))
                sc.wipe()


NAMES = [("chart", "chart"), ("a/b/chart", "a/b/chart"), ("a.b/c.d", "a.b/c.d"), ("./x", "x"), ("my_chart-1", "my_chart-1"), ("with space", "with space"),
         ("bad:na*me?", "badname?"), ("q<1>|2", "q12"), ("café", "caf"), ("50%+#1", "501"), ("deep/er/st/path", "deep/er/st/path"), ("out.png", "out.png"), ("(x)[y]{z}", "(x)[y]{z}"), (None, None)]


def g_names(c, name):
    with Scratch() as sc:
        h = fill()
        w = METHODS[name][0](h)
        chart(c, sc, h, name, w, both(METHODS[name][1]), ("filename=default",))
        for again in (0, 1):                                              # into new directories, then into existing ones
            for given, stem in NAMES:
                chart(c, sc, h, name, w, [] if stem is None else both(stem), ("filename=%s" % given,), filename=given)
        chart(c, sc, h, name, w, both("abs/x"), ("filename=absolute",), filename=os.path.join(sc.dir, "abs", "x"))
        if name in CONVERGENCE:
            for exts in ((), (".png",), (".svg",), (".pdf", ".svg"), [".png", ".pdf", ".svg"]):
                chart(c, sc, h, name, w, ["e" + x for x in exts], ("exts=%s" % (exts,),), filename="e", exts=exts)
                sc.wipe()
            y = METHODS[name][0](h)["axes"][0]["lines"][0]["y"]
            for lg in (None, "mine"):
                for st in ("-", "--", ":"):
                    for col in ("r", "#102030"):
                        chart(c, sc, h, name, want_line(y, "T", "Y", lg, col, st, "X"), both("e"), ("legend=%s" % lg, "linestyle=" + st, "color=" + col), filename="e",
                              title="T", x_label="X", y_label="Y", legend=lg, linestyle=st, color=col)
                        sc.wipe()
        if name == "diversity":
            chart(c, sc, h, name, want_multi([h.list_diversity], ["Me"], "T", "Diversity Measurement"), both("e"), ("labels=own",), filename="e", title="T", algorithm_name="Me")
        for v in (True, False):
            chart(c, sc, h, name, w, both("v"), ("verbose=%s" % v,), filename="v", verbose=v)


def g_pairs(c, a):
    """Every ordered pair of charts, with figures of the caller's open before, between or not at all."""
    for b in METHODS:
        for mine in (0, 1, 2):
            with Scratch() as sc:
                h = fill()
                if mine:
                    fig, axs = plt.subplots(mine)
                    (axs if mine == 1 else axs[1]).plot([1, 2, 3], [7, 8, 9], label="mine")
                    plt.title("my own")
                    if mine == 2:
                        plt.figure()
                        plt.plot([5, 6])
                        plt.figure(fig.number)
                f = ("open=%d" % mine, "first=" + a)
                chart(c, sc, h, a, METHODS[a][0](h), both("p"), f, filename="p")
                chart(c, sc, h, b, METHODS[b][0](h), both("q"), f + ("second=" + b,), filename="q")
                plt.close("all")
        for bad in (dict(list_agent_idx=(0,)), dict(list_agent_idx=(99,)), dict(selected_dimensions=(3, 1)), dict(list_agent_idx=())):
            with Scratch() as sc:
                h = fill()
                chart(c, sc, h, "trajectory", None, [], ("bad=%s" % bad,), filename="z", **bad)
                chart(c, sc, h, b, METHODS[b][0](h), both("q"), ("after-refusal", "second=" + b), filename="q")


def g_files(c, name):
    """The same, with matplotlib writing the files."""
    REAL[0] = True
    try:
        with Scratch() as sc:
            h = fill()
            chart(c, sc, h, name, METHODS[name][0](h), both("d/real"), (), filename="d/real")
            if name in CONVERGENCE:
                chart(c, sc, h, name, METHODS[name][0](h), ["real.svg"], (), filename="real", exts=(".svg",))
    finally:
        REAL[0] = False


def g_repeated(c, n):
    alpha = [0.0, 1.0, 1.5, -1.0, float("inf")]
    for seq in itertools.product(alpha, repeat=n):
        h = history(objs=([[v] for v in seq], []))
        for eps in (0.0, 0.5, 1.0, 2.5):
            with np.errstate(all="ignore"):
                got = h.get_global_repeated_times(eps)
            want = 0
            for a, b in reversed(list(zip(seq, seq[1:]))):
                if not (a == b or abs(a - b) <= eps):      # Equal infinite values have no difference
                    break
                want += 1
            c.add(repeated=1)
            c.seen(seq, eps)
            if got != want:
                c.bad("repeated-times", "%d instead of %d for %s, epsilon %s" % (got, want, seq, eps), ("fitness=%s" % (seq,), "epsilon=%s" % eps))


SOLVES = [(), (("minmax", "max"), ("mode", "swarm"), ("objs", "2")), (("space", "mixed"),)]


def g_solved(c, names):
    """The charts of real solves."""
    al = H.all_optimizers()
    with Scratch() as sc:
        for n in names:
            for devs in SOLVES:
                cfg = H.cfg_with(*devs)
                r = H.run(al[n], cfg)
                h = getattr(r.opt, "history", None)
                if r.exc is not None or h is None:
                    continue
                env.STATE.reset()
                for k, (w, stem) in METHODS.items():
                    f = H.feats(devs)
                    if k == "trajectory":
                        m = min(len(p) for p in h.list_population)
                        for ag, sel in (((1,), (1,)), ((1, m), (1, 2)), (range(1, min(m, 10) + 1), (2,))):
                            chart(c, sc, h, k, want_trajectory(h, ag, sel, "Trajectory of some agents"), both("s"), f, filename="s", list_agent_idx=ag, selected_dimensions=sel)
                    else:
                        chart(c, sc, h, k, w(h), both("s"), f, filename="s")
                    if len(c.viols) and c.viols[-1][0] == c.subject:
                        c.viols[-1] = (n,) + c.viols[-1][1:]
                    sc.wipe()


def groups(tier):
    g = []
    for name in METHODS:
        if name in CONVERGENCE or name in ("exploration_exploitation", "diversity"):
            g.append((g_series, "series-%s-0" % name, (name, 0, 0)))
            for n in range(1, 3 if tier == "quick" else 5):
                g += [(g_series, "series-%s-%d-%d" % (name, n, i), (name, n, i)) for i in range(5)]
        g.append((g_names, "names-" + name, name))
        g.append((g_pairs, "pairs-" + name, name))
        g.append((g_files, "files-" + name, name))
    g += [(g_objectives, "objectives-%d" % k, (k,)) for k in range(1, 14)]
    for pop in (1, 2, 3) if tier == "quick" else (1, 2, 3, 4):
        for dims in (1, 2, 3):
            for epochs in (0, 1, 2) if tier == "quick" else (0, 1, 2, 3):
                g.append((g_trajectory, "trajectory-%d-%d-%d" % (pop, dims, epochs), (pop, dims, epochs, (0, 1, 2) if pop < 4 else (2,))))
    g.append((g_trajectory_many, "trajectory-many", None))
    g += [(g_repeated, "repeated-%d" % n, n) for n in range(0, 6 if tier == "quick" else 8)]
    al = sorted(H.all_optimizers())
    step = 8
    g += [(g_solved, "solved-%03d" % i, al[i:i + step]) for i in range(0, len(al), step)]
    return g


def main(tier):
    rep = Report("C30", tier, "exploration")
    rep.assumptions = ["pictures are read from the figure at the moment it is saved; the files matplotlib writes are checked for their type on one chart of each kind"]
    U.run_groups(rep, groups(tier))
    rep.cov["rule"] = ("every series of <= k awkward values x chart; every choice of agents and dimensions; every file name form and option; every ordered pair of charts "
                       "x the caller's open figures; all charts of a solve of every optimizer; distinct by the pictures saved")
    return rep.finish()


replay = U.replayer(groups)
