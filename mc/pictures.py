"""Reads the pictures that pass through Figure.savefig instead of the files matplotlib would write."""
import os
import shutil
import tempfile

import numpy as np
import matplotlib
matplotlib.use("Agg")
from matplotlib import pyplot as plt
from matplotlib.backends.backend_agg import FigureCanvasAgg
from matplotlib.figure import Figure

SAVE = Figure.savefig
SHOTS = []
REAL = [False]


def picture(fig):
    out = []
    for ax in fig.axes:
        leg = ax.get_legend()
        out.append(dict(
            title=ax.get_title(), x=ax.get_xlabel(), y=ax.get_ylabel(),
            legend=None if leg is None else [t.get_text() for t in leg.get_texts()],
            lines=[dict(x=np.asarray(l.get_xdata(orig=True), dtype=float), y=np.asarray(l.get_ydata(orig=True), dtype=float), label=str(l.get_label()),
                        color=l.get_color(), style=l.get_linestyle()) for l in ax.lines],
            other=len(ax.patches) + len(ax.collections) + len(ax.images) + len(ax.texts)))
    return dict(axes=out, sup=fig.get_suptitle() if hasattr(fig, "get_suptitle") else (fig._suptitle.get_text() if fig._suptitle else ""))


def shot(self, fname, *a, **k):
    SHOTS.append((os.fspath(fname), picture(self)))
    if REAL[0]:
        return SAVE(self, fname, *a, **k)
    with open(fname, "w") as f:
        f.write("shot")


Figure.savefig = shot


def settings():
    return list(dict.items(matplotlib.rcParams))


DRAW = FigureCanvasAgg.draw_idle
FigureCanvasAgg.draw_idle = lambda self, *a, **k: DRAW(self, *a, **k) if REAL[0] else None      # nobody looks at the canvas


class Scratch:
    """A directory of its own to draw into."""

    def __enter__(self):
        self.old, self.dir = os.getcwd(), tempfile.mkdtemp(prefix="mc.")
        os.chdir(self.dir)
        del SHOTS[:]
        return self

    def files(self):
        return sorted(os.path.relpath(os.path.join(d, f), self.dir) for d, _, fs in os.walk(self.dir) for f in fs)

    def wipe(self):
        for e in os.listdir(self.dir):
            p = os.path.join(self.dir, e)
            shutil.rmtree(p) if os.path.isdir(p) else os.unlink(p)

    def __exit__(self, *a):
        os.chdir(self.old)
        shutil.rmtree(self.dir)
        plt.close("all")


def same(a, b):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    return a.shape == b.shape and np.array_equal(a, b, equal_nan=True)


def differs(got, want):
    if len(got["axes"]) != len(want["axes"]):
        return "%d plots instead of %d" % (len(got["axes"]), len(want["axes"]))
    if want["sup"] and got["sup"] != want["sup"]:
        return "figure title %r instead of %r" % (got["sup"], want["sup"])
    for i, (g, w) in enumerate(zip(got["axes"], want["axes"])):
        for k in ("title", "x", "y", "legend"):
            if g[k] != w[k]:
                return "%s of plot %d is %r instead of %r" % (k, i, g[k], w[k])
        if len(g["lines"]) != len(w["lines"]):
            return "%d curves instead of %d" % (len(g["lines"]), len(w["lines"]))
        for j, (a, b) in enumerate(zip(g["lines"], w["lines"])):
            if not same(a["y"], b["y"]) and not (b["x"] is None and same(a["y"][~np.isnan(a["y"])], [v for v in b["y"] if v == v])):
                return "curve %d of plot %d shows %s instead of %s" % (j, i, a["y"].tolist(), [float(v) for v in b["y"]])
            if b["x"] is not None and not same(a["x"], b["x"]):
                return "curve %d of plot %d is drawn against %s instead of %s" % (j, i, a["x"].tolist(), [float(v) for v in b["x"]])
            for k in ("label", "color", "style"):
                if b.get(k) is not None and a[k] != b[k]:
                    return "%s of curve %d is %r instead of %r" % (k, j, a[k], b[k])
    return None
