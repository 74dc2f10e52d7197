"""Records what is drawn: Figure.savefig and Axes.tricontourf/contourf/pcolormesh/imshow calls."""
import os
import numpy as np
import matplotlib
matplotlib.use("Agg")
import matplotlib.collections
import matplotlib.pyplot as plt
from matplotlib.axes import Axes
from matplotlib.figure import Figure

def areas(ax):
    """Filled areas: [(rgb, [vertices of each part])] and upright bands across the panel: [(x0, x1, rgb)]."""
    polys, bands = [], []
    for c in ax.collections:
        if isinstance(c, matplotlib.collections.PolyCollection):
            fc = c.get_facecolor()
            polys.append((tuple(float(v) for v in fc[0][:3]) if len(fc) else None, [np.array(p.vertices, float) for p in c.get_paths()], str(c.get_label())))
    for p in ax.patches:
        v = np.asarray(p.get_patch_transform().transform_path(p.get_path()).vertices, float)
        bands.append((float(v[:, 0].min()), float(v[:, 0].max()), tuple(float(x) for x in p.get_facecolor()[:3])))
    return polys, bands

def axis_snapshot(ax, shades=False):
    lines = []
    for l in ax.lines:
        x, y = np.array(l.get_xdata(), float).copy(), np.array(l.get_ydata(), float).copy()
        lines.append(dict(x=x, y=y, color=matplotlib.colors.to_hex(l.get_color()), marker=str(l.get_marker()),
                          style=str(l.get_linestyle()), width=float(l.get_linewidth()), label=str(l.get_label())))
    for c in ax.collections:                    # vlines and the like
        if isinstance(c, matplotlib.collections.LineCollection):
            for seg in c.get_segments():
                seg = np.array(seg, float)
                lines.append(dict(x=seg[:, 0], y=seg[:, 1], color="", marker="None", style="-", width=0.0, label=str(c.get_label())))
    leg = ax.get_legend()
    polys, bands = areas(ax) if shades else ([], [])
    return dict(polys=polys, bands=bands, lines=lines, xlim=ax.get_xlim(), ylim=ax.get_ylim(), title=ax.get_title(), xlabel=ax.get_xlabel(), ylabel=ax.get_ylabel(),
                texts=[t.get_text() for t in ax.texts], legend=[t.get_text() for t in leg.get_texts()] if leg else [],
                fills=[np.array(p.vertices).copy() for c in ax.collections for p in c.get_paths()[:1]] if len(ax.collections) < 40 else [])

class Capture:
    """with Capture(write=False) as c: plot...;  c.saved = [{path, format, axes: [...], surfaces: [...]}]

    shown=True also records in c.shown every figure put on the screen."""
    def __init__(self, write=True, dpi=12, artists=True, shown=False, shades=False):
        self.write, self.dpi, self.artists = write, dpi, artists
        self.saved, self.shown, self.screen, self.shades = [], [], shown, shades
        self.surf = []
    def __enter__(self):
        self.o = Figure.savefig, Axes.tricontourf, Axes.contourf
        me = self
        def savefig(fig, fname, *a, **k):
            axes = [axis_snapshot(x, me.shades) for x in fig.axes] if me.artists else []
            surf = [(list(fig.axes).index(ax) if ax in fig.axes else -1, args) for ax, args in me.surf if ax.figure is fig]
            me.saved.append(dict(path=fname, kw=dict(k), axes=axes, surfaces=surf))
            if me.write:
                k["dpi"] = me.dpi
                return me.o[0](fig, fname, *a, **k)
            with open(fname, "wb") as f:        # stands for the written figure
                f.write(b"placeholder")
        def surface(orig):
            def f(ax, *a, **k):
                me.surf.append((ax, [np.array(x, float).copy() for x in a if isinstance(x, (list, tuple, np.ndarray))]))
                return orig(ax, *a, **k)
            return f
        Figure.savefig = savefig
        if self.screen:
            self.p = plt.show,
            mine = [m.canvas.figure for m in plt._pylab_helpers.Gcf.get_all_fig_managers()]
            def look():
                for m in plt._pylab_helpers.Gcf.get_all_fig_managers():
                    fig = m.canvas.figure
                    if any(fig is x for x in mine):
                        continue
                    mine.append(fig)
                    me.shown.append(snapshot(fig))
            def snapshot(fig):
                return dict(axes=[axis_snapshot(x) for x in fig.axes],
                            surfaces=[(list(fig.axes).index(ax) if ax in fig.axes else -1, args) for ax, args in me.surf if ax.figure is fig])
            def show(*a, **k):
                look(); return me.p[0](*a, **k)
            plt.show = show
        Axes.tricontourf = surface(self.o[1])
        Axes.contourf = surface(self.o[2])
        return self
    def __exit__(self, *a):
        Figure.savefig, Axes.tricontourf, Axes.contourf = self.o
        if self.screen:
            plt.show, = self.p

def open_figures():
    return list(plt.get_fignums())

def tree(d):
    """{relative path: (size, mtime_ns)} below d."""
    out = {}
    for r, _, fs in os.walk(d):
        for f in fs:
            p = os.path.join(r, f)
            st = os.stat(p)
            out[os.path.relpath(p, d)] = (st.st_size, st.st_mtime_ns)
    return out
