"""C29: plots show the recorded signal of the requested span at the right time."""
import matplotlib as mpl
import matplotlib.pyplot as plt
import numpy as np
from matplotlib.figure import Figure
from shepherd_data import Reader

from vlib import rec
from vlib.core import Family

PROPERTY = "C29"
TECHNIQUE = "runtime monitoring of plot generation: every figure is intercepted when it is saved and its curves are compared with the plainly read recording"
LEVEL_NOTE = "Plot data and the curves of saved figures (hook on Figure.savefig from outside) are compared with the recorded samples: span, times, values, units, labels; fonts, colours and layout are not judged."
RULE = ("A case plots one or several generated recordings (rates, calibrations, clock origins, spans inside/outside/at the edges, with and without reduction) as data, single or multi plot. "
        "Signature: rate, span class, reduced or not, only power, count of recordings.")
REQUIRED = {"plot_data": 60, "figures": 40, "curves": 150, "too_short": 5}
ASSUMPTIONS = ["reduced curves are judged on slow signals (period >> reduction), with the lag of the low-pass filter tolerated"]


def make(ctx, name, n, dt, kind, host):
    rng, npr = ctx.rng, ctx.np_rng()
    path = ctx.dir / name
    t0 = rng.choice([0, 10**9, 1_650_000_000_000_000_000])
    t = (t0 + np.arange(n, dtype=np.uint64) * dt).astype(np.uint64)
    x = np.arange(n)
    per = n / rng.choice([1.0, 1.5, 2.5])
    if kind == "rand":
        v, c = npr.integers(0, 2**31, n), npr.integers(0, 2**31, n)
    else:
        v = 10**9 + 4e8 * np.sin(2 * np.pi * x / per)
        c = 3e8 + 2e8 * np.cos(2 * np.pi * x / per)
    v, c = v.astype("u4"), c.astype("u4")
    gains = (1e-9, 10 ** rng.uniform(-9, -6), 10 ** rng.uniform(-12, -10))
    offs = (0.0, rng.choice([0.0, 0.25, -0.01]), rng.choice([0.0, 1e-6]))
    rec.raw_h5(path, t=t, v=v, c=c, mode=rng.choice(["harvester", "emulator"]), gains=gains, offsets=offs, hostname=host)
    return {"path": path, "n": n, "dt": dt, "t": t.astype("i8") - int(t[0]), "t0": int(t[0]), "v": v * gains[1] + offs[1], "c": c * gains[2] + offs[2],
            "kind": kind, "name": host, "gv": gains[1], "gc": gains[2]}


def span(rng, total):
    k = rng.choice(["all", "all", "in", "in", "start", "end", "beyond", "negative", "int"])
    a, b = sorted((rng.uniform(0, total), rng.uniform(0, total)))
    return k, {"all": (None, None), "in": (round(a, 4), round(b, 4)), "start": (round(a, 3), None), "end": (None, round(b, 3)), "beyond": (round(a, 3), total * 2 + 1),
               "negative": (-3.5, round(b, 3)), "int": (0, max(1, round(b)))}[k]


def judge(ctx, s, a, b, limit, t, v, c, p, what, *, relative=True):
    """curves (si, seconds) of one recording for the span a..b"""
    total = s["n"] * s["dt"] * 1e-9
    lo = max(0.0, a if a is not None else 0.0)
    hi = min(total, b if b is not None else total)
    # the rate is stored as integer, so the translation of seconds to samples may be off by its rounding
    rate = 1e9 / s["dt"]
    tol = 0.51 + (abs(round(rate) / rate - 1)) * s["n"]
    n_want = (hi - lo) * rate
    n_lo, n_hi = lo * rate, hi * rate
    t = np.asarray(t, dtype=float) - (0 if relative else s["t0"] * 1e-9)
    idx = t * 1e9 / s["dt"]
    ctx.check(len(t) == len(v) == len(c), "lengths", f"{what}: {len(t)} times, {len(v)} voltages, {len(c)} currents")
    ctx.check(len(t) > 0, "empty", f"{what}: curve is empty")
    ii = np.round(idx).astype("i8")
    eps = 0.02 if s["t0"] < 1e12 or s["dt"] > 20_000 else 0.08  # float resolution of epoch time
    ctx.check(np.all(np.abs(idx - ii) < eps), "time-grid", f"{what}: times are not those of recorded samples", {"idx": idx[:10]})
    step = np.unique(np.diff(ii))
    ctx.check(len(step) <= 1, "time-steps", f"{what}: steps between points vary {step[:6]}")
    f = int(step[0]) if len(step) else 1
    ctx.check(f >= 1, "time-order", f"{what}: step {f}")
    ctx.check(abs(ii[0] - n_lo) <= tol, "span-start", f"{what}: first point is sample {ii[0]}, requested {n_lo:.1f}")
    ctx.check(n_hi - f - tol - 1 <= ii[-1] + f - 1 <= n_hi + tol, "span-end", f"{what}: last point is sample {ii[-1]} (step {f}), requested until {n_hi:.1f}")
    # resolution
    if n_want <= limit:
        ctx.check(f == 1, "reduction", f"{what}: {n_want} samples were reduced by {f} although {limit} are allowed")
    else:
        ctx.check(0.9 * min(n_want, limit) <= len(t) <= 2 * limit + 2, "resolution", f"{what}: {len(t)} points for {n_want:.0f} samples, limit {limit}")
    if f == 1:
        ctx.check(np.allclose(v, s["v"][ii], rtol=1e-9, atol=s["gv"] * 1e-3), "voltage", f"{what}: voltage differs from the recording")
        ctx.check(np.allclose(c, s["c"][ii], rtol=1e-9, atol=s["gc"] * 1e-3), "current", f"{what}: current differs from the recording")
    elif s["kind"] == "slow":
        for y, src, nm, amp in ((v, s["v"], "voltage", 4e8 * s["gv"]), (c, s["c"], "current", 2e8 * s["gc"])):
            # lag of the filter: below three points
            d = np.abs(np.asarray(y) - src[ii])
            lag = 3 * f * 2 * np.pi / (s["n"] / 2.5) * amp
            ctx.check(np.all(d <= lag + 0.02 * amp), nm, f"{what}: reduced {nm} deviates {d.max() / amp:.3f} of the amplitude", {"factor": f, "at": int(d.argmax())})
    if p is not None:
        ctx.check(np.allclose(p, np.asarray(v) * np.asarray(c), rtol=1e-9, atol=1e-18), "power", f"{what}: power is not voltage times current")
    ctx.count("curves", 2 + (p is not None))
    return f


DTS = [10_000, 10_000, 50_000, 100_000, 1_000_000, 30_000]


def case_data(ctx):
    rng = ctx.rng
    dt = rng.choice(DTS)
    n = rng.choice([30_000, 20_000, 10_000]) if dt == 10_000 else rng.randint(6000, 40_000)
    s = make(ctx, "a.h5", n, dt, rng.choice(["rand", "slow", "slow"]), rng.choice(["sheep0", "Knoten ß", "unknown"]))
    with Reader(s["path"], verbose=False) as r:
        limit = r.max_elements = rng.choice([r.max_elements, n, n // 3, n // 10 + 7, 1500])
        for _ in range(3):
            k, (a, b) = span(rng, n * dt * 1e-9)
            rel = rng.random() < 0.7
            lo, hi = max(0.0, a or 0.0), min(n * dt * 1e-9, b if b is not None else 1e9)
            d = r.generate_plot_data(a, b, relative_timestamp=rel)
            if (hi - lo) / (dt * 1e-9) < 7:
                ctx.check((hi - lo) / (dt * 1e-9) > 3 or d is None, "short", f"plot data for {a}..{b}")
                ctx.count("too_short")
                continue
            ctx.check(d is not None, "no-data", f"no plot data for {k} {a}..{b} of {n} samples")
            ctx.eq(d["name"], s["name"], "name", "name of the curve")
            ctx.check(abs(d["start_s"] - lo) < 1e-9 and abs(d["end_s"] - hi) <= max(1e-9, 2e-5 * hi), "span", f"reported span {d['start_s']}..{d['end_s']} instead of {lo}..{hi}")
            f = judge(ctx, s, a, b, limit, d["time"], d["voltage"], d["current"], None, f"data {k} {a}..{b} rate {1e9 / dt:.0f}", relative=rel)
            ctx.count("plot_data")
            ctx.seen(dt, k, rel, f > 1, s["kind"])
        b = rng.choice([0.0, 3.2 * dt * 1e-9, -1.0])
        ctx.check(r.generate_plot_data(None, b) is None, "short", f"plot data for a span of {b} s")
        a = n * dt * 1e-9
        ctx.check(r.generate_plot_data(a, None) is None and r.generate_plot_data(a + 5, None) is None, "short", "plot data for a span behind the recording")
        ctx.count("too_short", 2)


class Catch:
    """records the curves of every figure that is saved"""

    def __init__(self):
        self.figs = []

    def __enter__(self):
        self.orig = Figure.savefig
        me = self

        def savefig(fig, fname, *a, **kw):
            me.figs.append((str(fname), [{"x": [np.array(q.get_xdata()) for q in ax.lines], "y": [np.array(q.get_ydata()) for q in ax.lines],
                                          "label": [q.get_label() for q in ax.lines], "yl": ax.get_ylabel(), "xl": ax.get_xlabel(),
                                          "color": [q.get_color() for q in ax.lines],
                                          "handle": [q.get_color() for q in ax.get_legend().legend_handles if hasattr(q, "get_color")] if ax.get_legend() else [],
                                          "legend": [x.get_text() for x in ax.get_legend().get_texts()] if ax.get_legend() else []}
                                         for ax in fig.axes], tuple(fig.get_size_inches())))
            return me.orig(fig, fname, *a, **kw)

        Figure.savefig = savefig
        return self

    def __exit__(self, *a):
        Figure.savefig = self.orig


def case_figure(ctx):
    rng = ctx.rng
    cnt = rng.choice([1, 1, 2, 3, 5])
    multi = cnt > 1 or rng.random() < 0.3
    only = rng.random() < 0.4
    srcs, reds = [], []
    ks, (a, b) = span(rng, 0.2)
    data, limits, spans = [], [], []
    own = multi and rng.random() < 0.5
    w, h = rng.choice([(20, 10), (6, 3), (4, 5)])
    before = len(plt.get_fignums())
    with Catch() as catch:
        for i in range(cnt):
            dt = rng.choice(DTS[:4])
            n = int(rng.choice([0.2, 0.3, 0.45]) * 1e9 / dt)
            s = make(ctx, f"r{i}.h5", n, dt, rng.choice(["rand", "slow"]), f"host{rng.randint(0, 3)}")
            with Reader(s["path"], verbose=False) as r:
                r.max_elements = rng.choice([r.max_elements, max(1000, n // 4)])
                if own:
                    ks, (a, b) = span(rng, 0.2)
                if multi:
                    d = r.generate_plot_data(a, b)
                    if d is not None:
                        data.append(d)
                else:
                    r.plot_to_file(a, b, w, h, only_pwr=only)
                lo, hi = max(0.0, a or 0.0), min(n * dt * 1e-9, b if b is not None else 1e9)
                amount = (hi - lo) * 1e9 / dt
                if amount < 7:
                    ctx.check(3 < amount or len(data) + len(catch.figs) == len(srcs), "short", "plotted a span without samples")
                    ctx.count("too_short")
                    if len(data) + len(catch.figs) == len(srcs):
                        continue
                srcs.append(s)
                limits.append(r.max_elements)
                spans.append((a, b))
        if multi:
            if not data:
                return
            ctx.check(len(data) == len(srcs), "no-data", f"plot data of {len(data)} recordings instead of {len(srcs)}")
            path = Reader.multiplot_to_file(data, ctx.dir / "group", w, h, only_pwr=only)
            ctx.check(path is not None and path.exists(), "multiplot-path", f"returned path {path}")
    if not srcs:
        return
    files = sorted(x for x in ctx.dir.iterdir() if x.suffix != ".h5")
    ctx.check(len(files) == 1 and files[0].suffix == ".png", "files", f"plot files: {[x.name for x in files]}")
    img = mpl.image.imread(files[0])
    ctx.check(img.ndim == 3 and img.shape[0] > 100 and img.std() > 0.01, "image", "image is empty")
    ctx.check(len(catch.figs) == 1, "figures", f"{len(catch.figs)} figures were saved")
    _, axes, size = catch.figs[0]
    ctx.eq(size, (w, h), "size", "size of the figure")
    ctx.eq(len(axes), 1 if only else 3, "axes", "count of diagrams")
    for ax in axes:
        ctx.eq(len(ax["x"]), len(srcs), "curves", "curves per diagram")
        ctx.eq(ax["label"], [s["name"] for s in srcs], "labels", "names of the curves")
    ctx.check("power" in axes[-1]["yl"] and "mW" in axes[-1]["yl"] and "[s]" in axes[-1]["xl"], "axis", f"labels {axes[-1]['yl']!r} {axes[-1]['xl']!r}")
    if not only:
        ctx.check("[V]" in axes[0]["yl"] and "mA" in axes[1]["yl"], "axis", f"labels {axes[0]['yl']!r} {axes[1]['yl']!r}")
    if len(srcs) > 1:
        ctx.check(any(set(s["name"] for s in srcs) <= set(ax["legend"]) for ax in axes), "legend", "curves of a multiplot can not be told apart")
        for ax in axes:
            if len(ax["handle"]) == len(ax["legend"]):
                for name, color in zip(ax["legend"], ax["handle"]):
                    ctx.check(any(n == name and q == color for n, q in zip(ax["label"], ax["color"])), "legend", f"legend names another curve {name!r}")
                    ctx.count("legend_entries")
    for i, (s, limit, (a, b)) in enumerate(zip(srcs, limits, spans)):
        p = axes[-1]["y"][i] / 1e3
        t = axes[-1]["x"][i]
        if only:
            ii = np.round(t * 1e9 / s["dt"]).astype("i8")
            f = int(ii[1] - ii[0])
            want = s["v"][ii] * s["c"][ii]
            if f == 1:
                ctx.check(np.allclose(p, want, rtol=1e-9, atol=1e-18), "power", "power curve differs from the recording")
            ctx.count("curves")
            lo = max(0.0, a or 0.0) * 1e9 / s["dt"]
            ctx.check(abs(ii[0] - lo) <= 1, "span-start", f"first point is sample {ii[0]} instead of {lo:.1f}")
        else:
            v, c = axes[0]["y"][i], axes[1]["y"][i] / 1e3
            ctx.check(np.array_equal(axes[0]["x"][i], t) and np.array_equal(axes[1]["x"][i], t), "axis-times", "times differ between the diagrams")
            f = judge(ctx, s, a, b, limit, t, v, c, p, f"figure {i} of {len(srcs)}, {ks} {a}..{b}")
        reds.append(f > 1)
    ctx.count("figures")
    ctx.check(len(plt.get_fignums()) <= before + 1, "open-figures", f"{len(plt.get_fignums())} figures stay open")
    ctx.seen(ks, only, multi, len(srcs), any(reds), all(reds), own)


FAMILIES = {
    "data": Family(case_data, quick=96, thorough=4500),
    "figure": Family(case_figure, quick=128, thorough=3600),
}
