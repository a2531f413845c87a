#!/usr/bin/env python3
"""Replays a history of calls (written by TLC from the specification) on the real library.

usage: driver.py CALLS OUT [--pristine] [--jobs N]

CALLS is a file of JSON lines {"i", "m", "f", "a", "h"}: step number, module, operation, arguments and
the kind of container the arguments come in.  An argument {"ref": [i, path...]} is (a part of) the result
of step i.  OUT receives for every step the arguments as they were passed, the result "o" as nested
lists (complex numbers as [re, im]), the exception "x" if there was one ("" otherwise), the indices "mut"
of the arguments the call changed, "env" = the global settings it changed, and "drift" = the earlier
steps whose result objects changed since they were returned.  With --pristine, every call is made again
in a process in which nothing has been called before, and "p" / "px" are its result and exception.

The driver decides nothing: it records.  The verdicts are TLC's (tla/Conform.tla).
"""
import sys, os, json, signal, copy, warnings, pickle, struct, random
REPO = os.environ.get("ROCK_REPO", "/repo")
sys.dont_write_bytecode = True
sys.path.insert(0, REPO)
warnings.filterwarnings("ignore", message=".*")
import numpy as np
import matplotlib
matplotlib.use("Agg")
import matplotlib.pyplot as plt
import rockphypy
warnings.resetwarnings()
warnings.filterwarnings("ignore", message=".*")
if not os.path.abspath(rockphypy.__file__).startswith(os.path.abspath(REPO) + os.sep):
    sys.exit("driver: the library was imported from " + rockphypy.__file__)

CALL_S = float(os.environ.get("ROCK_CALL_S", "25"))
HUNG = {}
CALLS = 0      # number of calls made so far
# vectors that are documented as lists
LISTS = {("QI", "estimate_cem"): (2,), ("QI", "cst_plot"): (12,), ("QI", "cement_diag_plot"): (15,), ("EM", "VRH"): (0, 1),
         ("Anisotropy", "Backus"): (0, 1, 2), ("Anisotropy", "Backus_log"): (0, 1, 2, 3), ("EM", "hudson_ortho"): (4, 5),
         ("Fluid", "Squirt_anisotropic"): (0, 1)}


class CallTimeout(BaseException):
    pass


def _alarm(*_):
    raise CallTimeout()


# ------------------------------------------------------------------ arguments
BUFFERS = {}   # (operation, position) -> the array of an earlier call, which a client may fill again
RESULTS = []   # results a client still holds


def refilled(x, where):
    """x in the array of an earlier call, unless a result is (part of) that array."""
    old = BUFFERS.get((where, x.shape, x.dtype))
    if old is None or not old.flags.writeable or any(shares(r, old) for r in RESULTS):
        return x
    old[...] = x
    return old


def shares(r, a):
    if isinstance(r, (tuple, list)):
        return any(shares(x, a) for x in r)
    return isinstance(r, np.ndarray) and np.may_share_memory(r, a)


def scribble(r):
    """A client may do what it wants with a result: overwrite it."""
    if isinstance(r, (tuple, list)):
        for x in r:
            scribble(x)
    elif isinstance(r, np.ndarray) and r.flags.writeable:
        try:
            r[...] = 77
        except Exception:
            pass


def box(v, kind, where=None):
    """A JSON argument as the Python object of the requested kind of container."""
    if isinstance(v, list):
        if v and isinstance(v[0], str):
            return v
        if kind == "list" or kind == "np" and where is not None and where[2] in LISTS.get(where[:2], ()):
            return list(v)
        x = np.array(v)
        if kind == "ro":
            x.flags.writeable = False
        elif where is not None and x.size and x.dtype.kind in "fi":
            if kind == "re":
                x = refilled(x, where)
            if kind in ("re", "nd", "sc"):
                BUFFERS[(where, x.shape, x.dtype)] = x
        if kind == "nc" and x.ndim == 1:
            y = np.empty(2 * x.size + 1, dtype=x.dtype)
            y[:] = 7
            y[1::2][: x.size] = x
            x = y[1::2][: x.size]
        elif kind == "nc" and x.ndim == 2:
            x = np.asfortranarray(x)
        elif kind == "2d" and x.ndim == 1:
            x = x.reshape(shape2(x.size))
            if CALLS % 2:
                x = np.asfortranarray(x)
        elif kind == "series" and x.ndim == 1:
            import pandas as pd
            x = pd.Series(x, index=np.arange(x.size)[::-1] * 3 + 11 if CALLS % 2 else ["s%d" % (k // 2) for k in range(x.size)])
        return x
    if v == "None":
        return None
    if isinstance(v, bool) or isinstance(v, str):
        return v
    if kind == "np":
        return np.float64(v) if isinstance(v, float) else np.int64(v)
    return v


def shape2(n):
    r = 1
    for k in range(2, n + 1):
        if n % k == 0 and k * k <= n:
            r = k
    return (r, n // r)


def snap(v):
    return np.array(v, copy=True) if isinstance(v, np.ndarray) else copy.deepcopy(v)


def same(u, v):
    try:
        if isinstance(u, np.ndarray):
            return u.shape == v.shape and u.dtype == v.dtype and bool(np.array_equal(u, v, equal_nan=u.dtype.kind in "fc"))
        return type(u) is type(v) and bool(np.all((u == v) | ((u != u) & (v != v))))
    except Exception:
        return repr(u) == repr(v)


# ------------------------------------------------------------------ results
def plain(r, flat=None):
    if isinstance(r, (tuple, list)):
        return [plain(x, flat) for x in r]
    if r is None:
        return "None"
    if isinstance(r, (bool, np.bool_)):
        return bool(r)
    if isinstance(r, str):
        return r
    if isinstance(r, np.ma.MaskedArray):
        r = r.filled(np.nan)
    if hasattr(r, "to_numpy"):
        r = r.to_numpy()
    a = np.asarray(r)
    if flat is not None and a.shape == flat:
        a = a.reshape(-1)
    if a.dtype.kind == "c":
        return np.stack([a.real, a.imag], axis=-1).tolist()
    if a.dtype.kind == "O":
        return [plain(x, flat) for x in a] if a.ndim else plain(a.item(), flat)
    if a.dtype.kind in "fiub":
        return a.tolist() if a.dtype.kind != "u" else a.astype(float).tolist()
    return repr(r)


def lines_of(ax):
    return [[np.asarray(l.get_xdata(), dtype=float).tolist(), np.asarray(l.get_ydata(), dtype=float).tolist()] for l in ax.get_lines()]


def scatter_of(ax):
    from matplotlib.collections import PathCollection
    for c in ax.collections:
        if isinstance(c, PathCollection) and len(c.get_offsets()):
            o = np.ma.filled(np.ma.asarray(c.get_offsets(), dtype=float), np.nan)
            arr = c.get_array()
            return [o[:, 0].tolist(), o[:, 1].tolist()], plain(arr)
    return [], []


def mesh_of(ax):
    from matplotlib.collections import QuadMesh
    for c in ax.collections:
        if isinstance(c, QuadMesh):
            return plain(np.asarray(c.get_array()))
    return []


def main_axes(fig):
    return fig.axes[0]


# ------------------------------------------------------------------ operations that are not plain static calls
# q: the object of the session the call belongs to, or None for an object of its own
def qi_estimate(a, q=None):
    return (q or rockphypy.QI(a[0], a[1])).estimate_cem(*a[2:])


def qi_screening_plot(a, q=None):
    fig = (q or rockphypy.QI(a[0], a[1], Vsh=a[2])).screening_plot(*a[3:7])
    ax = main_axes(fig)
    s, c = scatter_of(ax)
    return [lines_of(ax), s, c]


def qi_cement_diag(a, q=None):
    fig = (q or rockphypy.QI(a[0], a[1])).cement_diag_plot(a[2], *a[3:])
    ax = main_axes(fig)
    s, c = scatter_of(ax)
    return [lines_of(ax), s, c]


def qi_cst_plot(a, q=None):
    fig, ax = rockphypy.QI.cst_plot(*a)
    return [lines_of(ax)]


def qi_plot_rpt(a, q=None):
    fig = rockphypy.QI.plot_rpt(*a)
    return [lines_of(main_axes(fig))]


def qi_kde(a, q=None):
    v, phi = a[0], a[1]
    if q is None:
        other = 1.7 * np.asarray(v)[::-1] + 11.0
        q = rockphypy.QI(v, phi, Vs=other) if a[6] == "Vp" else rockphypy.QI(other, phi, Vs=v)
    fig = q.kde_plot(a[2], a[3], a[4], a[5], vels=a[6], n=a[7])
    ax = main_axes(fig)
    return [lines_of(ax), mesh_of(ax)]


SESSIONS = {}
DEFAULT = dict(divide="warn", over="warn", under="ignore", invalid="warn")
QUIET = dict(divide="ignore", over="ignore", under="ignore", invalid="ignore")


def open_session(sid, a, kind):
    b = [box(v, kind) for v in a]
    SESSIONS[sid] = rockphypy.QI(b[0], b[1], Vs=b[2], Vsh=b[3])


SPECIAL = {
    ("QI", "estimate_cem"): qi_estimate, ("QI", "screening_plot"): qi_screening_plot,
    ("QI", "cement_diag_plot"): qi_cement_diag, ("QI", "cst_plot"): qi_cst_plot,
    ("QI", "plot_rpt"): qi_plot_rpt, ("QI", "kde_plot"): qi_kde,
}


def extend(m, f, a):
    """Outcomes of external routines an operation's specification refers to."""
    if (m, f) == ("QI", "kde_plot") and len(a) == 8:
        from kde_diffusion import kde2d
        try:
            d, _, _ = kde2d(np.array(a[1], dtype=float), np.array(a[0], dtype=float), n=a[7], limits=None)
            return a + [np.asarray(d).tolist()]
        except Exception:
            return a + [[]]
    return a


def env_state():
    s = np.random.get_state()
    rc = {k: str(v) for k, v in matplotlib.rcParams.items() if "backend" not in k}
    return (sorted(np.geterr().items()), hash(s[1].tobytes()), s[2], hash(json.dumps(rc, sort_keys=True)), os.getcwd(),
            str(sorted(np.get_printoptions().items(), key=str)), hash(random.getstate()), (len(sys.modules), str(warnings.filters)),
            hash(str(sorted(os.environ.items()))), sys.getrecursionlimit(), hash(str(getattr(sys.modules.get("pandas"), "options", 0) and
            sys.modules["pandas"]._config.config._global_config)))
ENV_NAMES = ("floating-point error handling", "random state", "random state", "rcParams", "working directory", "print options",
             "random state", "warning filters", "environment", "recursion limit", "pandas options")


def env_diff(p, q):
    """The settings that differ (importing a module may add warning filters and pandas options)."""
    return [n for n, a, b in zip(ENV_NAMES, p, q)
            if a != b and not (n in ("warning filters", "pandas options") and p[7][0] != q[7][0])]


def call(m, f, a, kind, session=None):
    """-> (raw result, plain result, exception text, changed arguments, changed settings)"""
    global CALLS
    CALLS += 1
    np.seterr(**(QUIET if CALLS % 3 == 0 else DEFAULT))
    args = [box(v, kind, (m, f, j)) for j, v in enumerate(a)]
    keep = [snap(v) for v in args]
    flat = None
    if kind == "2d":
        flat = next((v.shape for v, w in zip(args, a) if isinstance(v, np.ndarray) and v.ndim == 2 and not isinstance(w[0], list)), None)
    env = env_state()
    raw, x = None, ""
    if HUNG.get((m, f), 0) >= 2:
        return None, [], "not called: this operation hung before", [], []
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, CALL_S)
    try:
        g = SPECIAL.get((m, f))
        raw = g(args, SESSIONS.get(session)) if g else getattr(getattr(rockphypy, m), f)(*args)
    except CallTimeout:
        x = "timeout after %g s" % CALL_S
        HUNG[(m, f)] = HUNG.get((m, f), 0) + 1
    except RecursionError as e:
        x = "RecursionError"
    except Exception as e:
        x = type(e).__name__ + ": " + str(e)[:200]
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    mut = [j + 1 for j in range(len(args)) if not same(keep[j], args[j])]
    now = env_state()
    what = env_diff(env, now)
    if len(plt.get_fignums()) > 6:      # figures stay open a while: one drawn over again shows as a drift of the earlier result
        plt.close("all")
    try:
        o = plain(raw, flat) if not x else []
    except Exception as e:
        o, x = [], "unreadable result: " + str(e)[:100]
    return raw, o, x, mut, what


def resolve(v, outs):
    if isinstance(v, dict) and "ref" in v:
        w = outs[v["ref"][0]]
        for k in v["ref"][1:]:
            w = w[k - 1]
        return w
    if isinstance(v, dict):
        return {k: resolve(x, outs) for k, x in v.items()}
    if isinstance(v, list):
        return [resolve(x, outs) for x in v]
    return v


def drawn(fig):
    """What a figure shows: lines, points, texts, limits."""
    try:
        return json.dumps([[[[repr(v) for v in l.get_xydata().ravel()[:400].tolist()] for l in ax.lines],
                            [[repr(v) for v in np.ma.getdata(c.get_offsets()).ravel()[:400].tolist()] for c in ax.collections],
                            [t.get_text() for t in ax.texts], ax.get_xlabel(), ax.get_ylabel(), ax.get_title()] for ax in fig.axes])
    except Exception as e:
        return "unreadable figure: " + type(e).__name__


def history(steps, drift):
    outs, recs, held, figs = {}, [], [], []

    def check():
        bad = [i for i, fig, c in figs if drawn(fig) != c]
        figs[:] = [g for g in figs if g[0] not in bad][-40:]
        for n, (i, raw, o) in enumerate(held):
            try:
                if json.dumps(plain(raw)) != o:
                    bad.append(i)
            except Exception:
                bad.append(i)
        held[:] = [h for h in held if h[0] not in bad]
        return bad
    for n, s in enumerate(steps):
        i, m, f = s["i"], s["m"], s["f"]
        try:
            a = resolve(s["a"], outs)
        except Exception as e:
            recs.append(dict(s, a=[], o=[], x="earlier step has no such result: " + str(e)[:80], mut=[], env=[], drift=[], skip=1))
            continue
        if m == "law":
            recs.append(dict(i=i, m=m, f=f, a=a, h="", o=[], x="", mut=[], env=[], drift=[]))
            continue
        if f == "new":
            open_session(s["s"], a, s["h"])
            recs.append(dict(s, o=[], x="", mut=[], env=[], drift=[]))
            continue
        raw, o, x, mut, what = call(m, f, a, s.get("h", "nd"), s.get("s"))
        outs[i] = o
        if s.get("h") == "sc":
            scribble(raw)
        r = dict(i=i, m=m, f=f, a=extend(m, f, a), h=s.get("h", "nd"), o=o, x=x, mut=mut, env=what, drift=[])
        if "z" in s:
            r["z"] = s["z"]
        if drift:
            if not x and (m, f) not in SPECIAL and s.get("h") != "sc":
                held.append((i, raw, json.dumps(plain(raw))))
                RESULTS.append(raw)
            for fig in [g.canvas.figure for g in matplotlib._pylab_helpers.Gcf.figs.values()]:
                if not x and not any(fig is g[1] for g in figs):
                    figs.append((i, fig, drawn(fig)))
            if n % 5 == 4 or n == len(steps) - 1:
                r["drift"] = check()
            del held[:-60]
        recs.append(r)
    return recs


def forked(fn):
    """Runs fn in a child process and returns its (pickled) result."""
    rd, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(rd)
        try:
            data = pickle.dumps(("ok", fn()))
        except BaseException as e:
            data = pickle.dumps(("err", repr(e)))
        with os.fdopen(wr, "wb") as w:
            w.write(data)
        os._exit(0)
    os.close(wr)
    with os.fdopen(rd, "rb") as r:
        data = r.read()
    os.waitpid(pid, 0)
    if not data:
        return ("err", "process ended")
    return pickle.loads(data)


def pristine_calls(recs):
    out = {}
    for r in recs:
        if r["m"] == "law" or r["f"] == "new" or r.get("skip"):
            continue
        a = r["a"][:8] if (r["m"], r["f"]) == ("QI", "kde_plot") else r["a"]
        st, v = forked(lambda: call(r["m"], r["f"], a, "np" if r["h"] == "np" else "nd")[1:3])
        out[r["i"]] = v if st == "ok" else ([], "child: " + v)
    return out


def main():
    src, dst = sys.argv[1], sys.argv[2]
    pristine = "--pristine" in sys.argv
    jobs = int(sys.argv[sys.argv.index("--jobs") + 1]) if "--jobs" in sys.argv else 1
    steps = sorted((json.loads(l) for l in open(src) if l.strip()), key=lambda s: s["i"])
    if not pristine:
        recs = history(steps, False)
    else:
        st, recs = forked(lambda: history(steps, True))
        if st != "ok":
            sys.exit("driver: " + str(recs))
        # several servers in which nothing has been called; each call in a child of its own
        parts, pipes = [recs[k::jobs] for k in range(jobs)], []
        for p in parts:
            rd, wr = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(rd)
                data = pickle.dumps(pristine_calls(p))
                with os.fdopen(wr, "wb") as w:
                    w.write(data)
                os._exit(0)
            os.close(wr)
            pipes.append((rd, pid))
        res = {}
        for rd, pid in pipes:
            with os.fdopen(rd, "rb") as r:
                res.update(pickle.loads(r.read()))
            os.waitpid(pid, 0)
        for r in recs:
            if r["i"] in res:
                r["p"], r["px"] = res[r["i"]]
    with open(dst, "w") as w:
        for r in recs:
            w.write(json.dumps(r) + "\n")


if __name__ == "__main__":
    main()
