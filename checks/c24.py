"""C24: configurations, parameter fits, timers and helpers: all short histories and small inputs against reference automata."""
import contextlib
import io
import itertools
import math
import os
import re
import time
import unittest

import numpy as np
import tbplas as tb
from tbplas import utils
from tbplas.builder import advanced

from lib import ref

CHUNK = 4
BOUNDS = {"quick": "timer: all histories of 5 operations out of 9 (2 slots, time passing explicitly), 6 out of 7 and 8 out of 4 (time passing with every operation); progress bars of 1 to 30 (and up to 1000) tasks x 1 to 12 (128) scales; all single-key changes of every "
                   "section of a configuration, saved and read back; fits of 1 to 4 parameters x weights from a finite set x starting points; banners of "
                   "widths 6 to 40; test helper on all pairs of small arrays",
          "thorough": "timer histories of one more operation",
          "assumptions": ["the clock is replaced by a counter", "fits of linear models, where the minimum is known in closed form"]}
OPS = [("tic", "a"), ("toc", "a"), ("tic", "long"), ("toc", "long"), ("rep",), ("tot",), ("reset",), ("wait", 1.0), ("wait", 0.25)]


def cases(tier):
    n = 6 if tier == "thorough" else 5
    for first in itertools.product(range(len(OPS)), repeat=2):
        yield ["T", first, n]
    for first in itertools.product(range(7), repeat=2):
        yield ["T", first, n + 1, 7]
    for first in itertools.product((0, 1, 4, 5), repeat=2):
        yield ["T", first, n + 3, (0, 1, 4, 5)]
    for n in list(range(1, 31)) + [64, 100, 101, 999, 1000]:
        yield ["P", n]
    yield ["C"]
    for npar in range(1, 5):
        for w in range(7):
            for kind in range(3):
                yield ["F", npar, w, kind]
    yield ["B"]
    yield ["H"]
    yield ["S"]


def out_of(fn):
    s = io.StringIO()
    with contextlib.redirect_stdout(s):
        fn()
    return s.getvalue()


class Clock:
    def __init__(self):
        self.t = 1000.0


def report(text):
    d = {}
    for l in text.split("\n"):
        if l.strip():
            k, v = l.split(":")
            d[k.strip()] = float(v)
    return d


def do_T(ctx, first, depth, auto=0):
    """auto: the operations to use, with time passing before every one of them."""
    pool = range(auto) if isinstance(auto, int) and auto else auto or range(len(OPS))
    clk = Clock()
    old = {n: getattr(time, n) for n in ("time", "perf_counter", "monotonic", "process_time")}
    names = [(utils, n, v) for n, v in vars(utils).items() if any(v is o for o in old.values())]

    def fake():
        return clk.t
    for n in old:
        setattr(time, n, fake)
    for m, n, v in names:
        setattr(m, n, fake)
    try:
        for rest in itertools.product(pool, repeat=depth - 2):
            seq = list(first) + list(rest)
            t = tb.Timer()
            run, last, tot, order = {}, {}, {}, []
            for k, o in enumerate(seq):
                op = OPS[o]
                what = f"history {seq[:k + 1]}"
                if auto:
                    clk.t += 0.25 * 2 ** k
                if op[0] == "wait":
                    clk.t += op[1]
                elif op[0] == "tic":
                    t.tic(op[1])
                    run[op[1]] = clk.t
                    if op[1] not in order:
                        order.append(op[1])
                elif op[0] == "toc":
                    if op[1] not in run:
                        ctx.raises(lambda: t.toc(op[1]), what, RuntimeError)
                    else:
                        t.toc(op[1])
                        d = clk.t - run.pop(op[1])
                        last[op[1]] = d
                        tot[op[1]] = tot.get(op[1], 0.0) + d
                elif op[0] == "reset":
                    t.reset()
                    run, last, tot, order = {}, {}, {}, []
                else:
                    f, w = (t.report_time, last) if op[0] == "rep" else (t.report_total_time, tot)
                    if run:
                        ctx.raises(lambda: out_of(f), what, RuntimeError)
                    else:
                        got = report(out_of(f))
                        ctx.equal(list(got), order, f"{what}: slots reported")
                        ctx.close([got[s] for s in order], [w[s] for s in order], f"{what}: times", 1e-6)
                ctx.step()
            ctx.state(tuple(sorted(run)), tuple(sorted((k, round(v, 3)) for k, v in last.items())),
                      tuple(sorted((k, round(v, 3)) for k, v in tot.items())))
            ctx.traces += 1
    finally:
        for n, v in old.items():
            setattr(time, n, v)
        for m, n, v in names:
            setattr(m, n, v)
    ctx.trace(f"{[OPS[x] for x in first]}")


def do_P(ctx, n):
    for sc in list(range(1, 13)) + ([50, 99, 100, 128] if n > 30 else []):
        b = tb.ProgressBar(n, sc)
        unit = n // sc
        nxt = unit
        for c in range(1, n + 1):
            txt = out_of(b.count)
            m = re.fullmatch(r"finished\s+(\d+) of\s+(\d+) \(\s*([\d.]+)%\)\n", txt)
            if c >= nxt:
                nxt += unit
                ctx.true(m is not None, f"progress {c} of {n} in {sc} parts: printed {txt!r}")
                ctx.equal((int(m.group(1)), int(m.group(2))), (c, n), "progress counts")
                ctx.close(float(m.group(3)), 100.0 * c / n, "percentage", 0.006, 1.0)
            else:
                ctx.equal(txt, "", f"progress {c} of {n} in {sc} parts")
            ctx.state(n, sc, c)
            ctx.step()
    ctx.trace(n)


SECTIONS = ["generic", "LDOS", "DC_conductivity", "quasi_eigenstates", "dyn_pol", "dckb"]


def smp():
    r = ref.Cell([[0.3, 0, 0], [0, 0.4, 0], [0, 0, 0.5]], unit=1.0)
    r.add_orbital((0.2, 0.3, 0.4), 0.5)
    r.add_hopping((1, 0, 0), 0, 0, -1.0)
    return tb.Sample(tb.SuperCell(ref.build_cell(tb, r), (3, 1, 1), pbc=(True, False, False)))


def do_C(ctx):
    d = os.path.join(ctx.workdir(), "cfg")
    s = smp()
    base = tb.Config()
    for sec in SECTIONS:
        for key in [None] + list(getattr(base, sec)):
            c = tb.Config()
            if key is not None:
                v = getattr(c, sec)[key]
                getattr(c, sec)[key] = (v + 1 if isinstance(v, (int, float)) and not isinstance(v, bool)
                                        else (not v) if isinstance(v, bool) else [[0.5, 0.25, 1.0]])
            tb.Solver(s, c, directory=d, prefix="p", echo_details=False)
            tb.Analyzer(s, c, echo_details=False)
            r = tb.read_config(os.path.join(d, "p.config.pkl"))
            for q in SECTIONS:
                ctx.equal(getattr(r, q), getattr(c, q), f"section {q} of a saved configuration after changing {sec}.{key}")
            r.check_params()
            tb.Solver(s, r, directory=d, prefix="q", echo_details=False)
            ctx.state(sec, key)
            ctx.step(3)
        # undefined parameters are refused, by a new and by a reloaded configuration, everywhere
        for c in (tb.Config(), tb.read_config(os.path.join(d, "p.config.pkl"))):
            getattr(c, sec)["no_such_key"] = 1
            ctx.raises(c.check_params, f"undefined parameter in {sec}", ValueError)
            ctx.raises(lambda: tb.Solver(s, c, directory=d, prefix="z", echo_details=False), f"solver with an undefined parameter in {sec}", ValueError)
            ctx.raises(lambda: tb.Analyzer(s, c, echo_details=False), f"analyzer with an undefined parameter in {sec}", ValueError)
            ctx.step(3)
    # configurations do not share state
    a, b = tb.Config(), tb.Config()
    for sec in SECTIONS:
        for key, v in getattr(a, sec).items():
            if isinstance(v, list):
                v.append("x")
            getattr(a, sec)[key] = None
    fresh = tb.Config()
    for sec in SECTIONS:
        ctx.equal(getattr(b, sec), getattr(fresh, sec), f"section {sec} after another configuration changed")
        ctx.true(None not in getattr(fresh, sec).values(), "a new configuration has the defaults")
    for t in (1.0, 10.0, 77.5, 300.0, 3000.0):
        c = tb.Config()
        c.set_temperature(t)
        ctx.close(c.generic["beta"] * 8.617333262e-5 * t, 1.0, f"beta of {t} K", 2e-6)
        ctx.step()
    ctx.close(tb.Config().generic["beta"] * 8.617333262e-5 * 300, 1.0, "default temperature", 2e-6)
    ctx.trace("configurations")


def basis(kind, npar):
    """Linear model: bands(p) = sum p_i f_i(k) for every band."""
    nk = 5 + npar
    k = np.array([[0.07 * i, 0.1 * i * i % 1, 0.0] for i in range(nk)])
    nb = kind + 1
    f = np.array([[[math.cos(2 * math.pi * (i + 1) * x[0] * (b + 1)) + 0.3 * math.sin(5 * i * x[1] + b) for b in range(nb)]
                   for x in k] for i in range(npar)])
    return k, f


WEIGHTS = [None, "ones", "int", "float", "neg", "zero-one", "big"]


def do_F(ctx, npar, wi, kind):
    k, f = basis(kind, npar)
    nb = kind + 1
    w = {"ones": np.ones(nb), "int": np.arange(1, nb + 1), "float": 0.3 + 0.5 * np.arange(nb), "neg": -0.2 - np.arange(nb),
         "zero-one": np.array([1.0] + [0.0] * (nb - 1)), "big": 1e3 * (1 + np.arange(nb)), None: None}[WEIGHTS[wi]]
    w0 = None if w is None else w.copy()
    eff = np.ones(nb) if w is None else np.abs(w) / np.abs(w).sum()
    exact = np.array([0.5 - 0.4 * i for i in range(npar)])
    noise = np.array([[0.05 * math.sin(3 * i + 7 * b) for b in range(nb)] for i in range(len(k))])
    for nz in (0.0, 1.0):
        refb = np.tensordot(exact, f, 1) + nz * noise
        calls = []

        class Fit(tb.ParamFit):
            def calc_bands_ref(self):
                return refb.copy()

            def calc_bands_fit(self, params):
                calls.append(np.array(params))
                return np.tensordot(np.array(params), f, 1)
        fit = Fit(k) if w is None else Fit(k, w)
        if w is not None:
            ctx.true(np.array_equal(w, w0), "the weights given were modified")
        for p in (exact, exact * 0, exact + 1):
            got = fit.estimate_error(p.copy())
            want = ((refb - np.tensordot(p, f, 1)) * eff).reshape(-1)
            ctx.close(got, want, f"error of the fit, {npar} parameters, weights {w}", 1e-12)
            ctx.step()
        a = (f * eff).reshape(npar, -1).T
        best = np.linalg.lstsq(a, (refb * eff).reshape(-1), rcond=None)[0]
        for start in (exact * 0, exact + 3, -exact):
            s0 = start.copy()
            got = fit.fit(start)
            ctx.close(got, best, f"fit of {npar} parameters to {nb} bands, weights {w}, noise {nz}, start {s0}", 1e-6)
            ctx.true(np.array_equal(start, s0), "the starting point was modified")
            ctx.step()
            ctx.state(npar, wi, kind, nz, tuple(s0))
        ctx.close(fit.fit(exact * 0, full_output=True), best, "fit with full output", 1e-6)
        if npar > 1:
            ctx.raises(lambda: fit.fit(exact * 0 + 50, maxfev=1), "fit which stopped early", RuntimeError)
    for bad in (nb + 1, nb - 1):
        if bad > 0:
            ctx.raises(lambda: Fit(k, np.ones(bad)), f"{bad} weights for {nb} bands", ValueError)
    ctx.trace(f"{npar} {wi} {kind}")


def do_B(ctx):
    for width in range(6, 41):
        for text in ("", "a", "Energy", "some words"):
            for mark, end in (("-", "#"), ("=", "*")):
                if len(text) + 4 > width:
                    continue
                l = out_of(lambda: tb.print_banner_line(text, width=width, mark=mark, end=end)).split("\n")
                ctx.equal(len(l), 2, "lines of a banner")
                ctx.equal(len(l[0]), width, f"width of a banner line of {text!r}")
                ctx.true(l[0][0] == end and l[0][-1] == end and f" {text} " in l[0] and l[0][1:-1].replace(f" {text} ", "", 1).strip(mark) == "",
                         f"banner {l[0]!r}")
                left, right = l[0][1:-1].split(f" {text} ", 1) if text else (l[0][1:-1].split("  ", 1))
                ctx.true(abs(len(left) - len(right)) <= 1, f"banner {l[0]!r} is not centred")
                b = out_of(lambda: tb.print_banner_block(text, width=width, mark=mark, end=end)).split("\n")
                ctx.equal((b[0], b[2]), (end + mark * (width - 2) + end,) * 2, "borders of a banner block")
                ctx.equal(len(b[1]), width, "width of a banner block")
                ctx.equal(b[1][1:-1].strip(), text, "text of a banner block")
                ctx.state(width, text, mark)
                ctx.step(2)
    ctx.true(len(tb.get_datetime()) > 0, "date")
    ctx.equal(tb.get_datetime("%Y") > "2000", True, "year")
    ctx.trace("banners")


class TC(unittest.TestCase):
    def runTest(self):
        pass


def verdict(fn):
    try:
        fn()
    except AssertionError:
        return False
    return True


def do_H(ctx):
    h = utils.TestHelper(TC())
    arrs = [np.array(x) for x in ([0.0, 0.0], [1.0, 0.0], [0.0, -1.0], [1e-9, 0.0], [1e-3, -1e-3], [1j, 0.0])]
    for a, b in itertools.product(arrs, arrs):
        d = float(np.abs(a - b).sum())
        ctx.equal(verdict(lambda: h.test_equal_array(a, b)), d == 0, f"equality of {a} and {b}")
        ctx.equal(verdict(lambda: h.test_no_equal_array(a, b)), d != 0, f"inequality of {a} and {b}")
        for delta in (1e-7, 1e-2):
            ctx.equal(verdict(lambda: h.test_equal_array(a, b, almost=True, delta=delta)), d <= delta, f"approximate equality of {a} and {b}")
            ctx.equal(verdict(lambda: h.test_no_equal_array(a, b, almost=True, delta=delta)), d > delta, f"approximate inequality of {a} and {b}")
        ctx.state(str(a), str(b))
        ctx.step(6)

    def thrower(e):
        def f():
            if e is not None:
                raise e
        return f
    for e in (None, ValueError("abc 12"), KeyError("x")):
        for exc in (ValueError, KeyError):
            for msg in (None, r"abc \d+", "zzz"):
                want = e is not None and isinstance(e, exc) and (msg is None or re.search(msg, str(e)) is not None)
                try:
                    got = verdict(lambda: h.test_raise(thrower(e), exc, msg))
                except Exception as x:
                    got = False
                    ctx.true(x is e, "another exception")
                ctx.equal(got, want, f"test_raise of {e!r} expecting {exc.__name__} {msg}")
                ctx.step()
            if e is None or isinstance(e, exc):
                ctx.equal(verdict(lambda: h.test_no_raise(thrower(e), exc)), e is None, f"test_no_raise of {e!r}")
                ctx.step()
    for lines in (["one"], ["one", "two 2"], ["one", "", "two 2"]):
        for msgs, want in ((["one"], True), (["two"], False), (["one", r"two \d"], len(lines) > 1)):
            if len(msgs) > len([x for x in lines if x]):
                continue
            ctx.equal(verdict(lambda: h.test_stdout(lambda: print("\n".join(lines)), msgs)), want, f"test_stdout {lines} {msgs}")
            ctx.step()
    ctx.trace("test helper")


def do_S(ctx):
    for n in range(0, 40):
        s = tb.gen_seeds(n)
        ctx.true(len(s) <= n and len(set(s)) == len(s) and all(isinstance(x, int) and -2 ** 31 <= x < 2 ** 31 for x in s), f"{n} seeds: {s}")
        ctx.state("seeds", n)
        ctx.step()
    # tables of matrix elements printed for reuse
    so = advanced.SOC()
    soft = advanced.SOCTable()
    for si, sj in itertools.product(("up", "down"), repeat=2):
        txt = out_of(lambda: so.print_soc_table(si, sj)).split("\n", 1)[1]
        tab = eval(txt, {"__builtins__": {}})
        labels = sorted({x for k in tab for x in k} | {"s", "px", "py", "pz", "dxy", "dx2-y2", "dyz", "dzx", "dz2"})
        for a, b in itertools.product(labels, repeat=2):
            want = so.eval(a, si, b, sj)
            ctx.close(tab.get((a, b), 0.0), want if abs(want) > 1e-5 else 0.0, f"printed matrix element <{a} {si}|l.s|{b} {sj}>", 1e-9)
            ctx.close(soft.eval(a, si, b, sj), want, f"tabulated matrix element <{a} {si}|l.s|{b} {sj}>", 1e-6)
            ctx.step(2)
            ctx.state("soc", a, si, b, sj)
    ctx.raises(lambda: so.print_soc_table("left", "up"), "illegal spin", ValueError)
    ctx.trace("seeds and tables")


def run(case, ctx):
    globals()["do_" + case[0]](ctx, *case[1:])
