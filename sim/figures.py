"""Figures: canonical content, the drawing seam, and other users of pyplot."""
import threading
import numpy as np
import engine, world
from world import harness, canon, seam

LOCAL = threading.local()
_patched = False

def patch():
    """Calls from the package into matplotlib are yield and fault points."""
    global _patched
    if _patched:
        return
    _patched = True
    import matplotlib
    matplotlib.use("Agg")
    import matplotlib.pyplot as plt
    from matplotlib.axes import Axes
    from matplotlib.figure import Figure

    depth = threading.local()

    def wrap(owner, name):
        f = getattr(owner, name)
        def g(*a, **k):
            s = engine.CURRENT
            if s is None or getattr(depth, "n", 0):
                return f(*a, **k)
            seam("figure", name)
            depth.n = 1
            try:
                r = f(*a, **k)
            finally:
                depth.n = 0
            s.point("figure-ret", name)
            return r
        g.__name__ = name
        g.__doc__ = f.__doc__
        setattr(owner, name, g)

    for n in ("subplots", "colorbar", "title", "tight_layout", "gcf", "gca", "close", "sca", "contourf", "plot"):
        wrap(plt, n)
    for n in ("contourf", "contour", "plot", "quiver", "legend", "clabel"):
        wrap(Axes, n)
    for n in ("colorbar", "tight_layout", "subplots", "add_subplot"):
        wrap(Figure, n)

    figure = plt.figure
    def recorded(*a, **k):
        f = figure(*a, **k)
        made = getattr(LOCAL, "made", None)
        if made is not None:
            made.append(f)
        return f
    recorded.__doc__ = figure.__doc__
    plt.figure = recorded


# -- canonical content -------------------------------------------------------------

def text_of(t):
    return t.get_text() if t is not None else None

def artist(c):
    name = type(c).__name__
    out = {"type": name}
    if hasattr(c, "get_paths"):
        out["paths"] = [np.array(p.vertices) for p in c.get_paths()] if name != "Quiver" else []
    if hasattr(c, "levels") and c.levels is not None:
        out["levels"] = np.asarray(c.levels, dtype=float)
        out["z"] = [float(c.zmin), float(c.zmax)]
        out["filled"] = bool(c.filled)
    if name == "Quiver":
        out["XYUV"] = [np.asarray(x) for x in (c.X, c.Y, c.U, c.V)]
    if hasattr(c, "get_cmap"):
        out["cmap"] = c.get_cmap().name
    if hasattr(c, "get_facecolor") and name not in ("QuadContourSet", "QuadMesh"):
        out["colors"] = [np.asarray(c.get_facecolor(), dtype=float), np.asarray(c.get_edgecolor(), dtype=float)]
    return out

def line(l):
    import matplotlib.colors as mc
    return {"x": np.asarray(l.get_xdata(), dtype=float), "y": np.asarray(l.get_ydata(), dtype=float),
            "color": mc.to_hex(l.get_color()), "style": l.get_linestyle(), "width": float(l.get_linewidth()),
            "label": str(l.get_label()) if not str(l.get_label()).startswith("_") else ""}

def axes(ax):
    leg = ax.get_legend()
    return {
        "titles": [ax.get_title(loc=x) for x in ("left", "center", "right")],
        "labels": [ax.get_xlabel(), ax.get_ylabel()],
        "lim": [float(x) for x in (*ax.get_xlim(), *ax.get_ylim())],
        "xticks": [np.asarray(ax.get_xticks(), dtype=float), ax.xaxis.get_major_formatter().format_ticks(ax.get_xticks())],
        "yticks": [np.asarray(ax.get_yticks(), dtype=float), ax.yaxis.get_major_formatter().format_ticks(ax.get_yticks())],
        "lines": [line(l) for l in ax.lines],
        "collections": [artist(c) for c in ax.collections],
        "texts": [t.get_text() for t in ax.texts],
        "patches": len(ax.patches), "images": len(ax.images),
        "legend": [text_of(t) for t in leg.get_texts()] if leg is not None else None,
        "pos": [float(round(x, 6)) for x in ax.get_position().bounds],
    }

def figure_data(fig):
    return {"size": [float(x) for x in fig.get_size_inches()], "suptitle": text_of(fig._suptitle) if fig._suptitle else None,
            "axes": [axes(a) for a in fig.axes], "texts": [t.get_text() for t in fig.texts]}

def canon_figure(fig):
    return ("Figure", canon(figure_data(fig)))


# -- harness functions ---------------------------------------------------------------

@harness
def shortcut(env, state, kind, opts):
    """state.plot.<kind>(): what was drawn, and into what."""
    LOCAL.made = []
    try:
        r = getattr(state.plot, kind)(**opts)
        return [r, list(LOCAL.made)]
    finally:
        LOCAL.made = None

class Muted:
    def __enter__(self):
        s = engine.CURRENT
        self.m = s.muted() if s is not None and s.me() is not None else None
        if self.m:
            self.m.__enter__()
    def __exit__(self, *a):
        if self.m:
            self.m.__exit__(*a)

def others(env):
    return env.extra.setdefault("figures", {})

@harness
def newfig(env, name, seed):
    """Another user of pyplot opens a figure (which becomes the current one)."""
    import matplotlib.pyplot as plt
    with Muted():
        fig = plt.figure(figsize=(3, 2))
        ax = fig.add_subplot(1, 2, 1)
        ax.plot([0, seed % 7, 3], [1, 2, seed % 5])
        ax.set_title(f"other {seed % 1000}")
        ax.set_xlim(0, 7)
        others(env)[name] = [fig, canon_figure(fig)]
    return "opened"

@harness
def curfig(env, name):
    import matplotlib.pyplot as plt
    with Muted():
        o = others(env).get(name)
        if o is not None and plt.fignum_exists(o[0].number):
            plt.figure(o[0].number)
            plt.sca(o[0].axes[0])
    return "current"

@harness
def drawfig(env, name, seed):
    with Muted():
        o = others(env).get(name)
        if o is not None:
            before = canon_figure(o[0])
            m = world.compare(before, o[1], 1e-9)
            o[0].axes[0].plot([seed % 3, 4], [seed % 11, 1])
            o[1] = canon_figure(o[0])
            if m:
                return "touched: " + m
    return "drawn"

@harness
def closefig(env, name):
    import matplotlib.pyplot as plt
    with Muted():
        o = others(env).pop(name, None)
        if o is not None:
            m = world.compare(canon_figure(o[0]), o[1], 1e-9)
            plt.close(o[0])
            if m:
                return "touched: " + m
    return "closed"

@harness
def checkfigs(env):
    with Muted():
        for name in sorted(others(env)):
            fig, c = others(env)[name]
            m = world.compare(canon_figure(fig), c, 1e-9)
            if m:
                return f"figure of another user was changed: {m}"
    return "untouched"
