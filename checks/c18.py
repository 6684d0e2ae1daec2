"""C18: every transform of correlation data, on a basis of its input space, against the stated sums."""
import cmath
import itertools
import math

import numpy as np
import tbplas as tb

from lib import ref

CHUNK = 4
EPS0 = 0.6944615417149689
BOUNDS = {"quick": "6 samples (extension, degenerate, triclinic and left-handed lattices) x dimension 2, 3 x spin correction x 3 temperatures x 4 windows "
                   "(default and user-supplied) x step counts 1..6, 9 (33, 65, 130 for 3 samples); all pairs of quantities of one analyzer with changes of all parameters in between; data: all unit vectors times {1, i} and mixed vectors (linear maps), "
                   "all vectors over {0, 1, -1, i} up to 3 steps for the DOS; energy windows, q-points, kernels and integration points from finite sets",
          "thorough": "as quick with step counts 1..12 and kernels up to 9",
          "assumptions": ["the DC and Hall prefactors contain no 'extended' factor (as implemented)",
                          "an all-zero DOS spectrum is not normalisable and not tested"]}


def models():
    out = {}

    def smp(lat, orbs, ext=1.0, dim=(3, 3, 1), org=(0, 0, 0)):
        r = ref.Cell(lat, org, unit=1.0)
        for i in range(orbs):
            r.add_orbital((0.1 * i, 0.2 * i, 0.05 * i), 0.3 * i)
        r.add_hopping((1, 0, 0), 0, 0, -0.7)
        r.add_hopping((0, 1, 0), 0, orbs - 1, 0.4 + 0.2j)
        r.extended = ext
        return ref.Smp([ref.SC(r, dim, (1, 1, 0), (), None)])
    out["sq"] = smp([[0.3, 0, 0], [0, 0.4, 0], [0, 0, 0.5]], 1)
    out["hex4"] = smp([[0.246, 0, 0], [0.123, 0.213, 0], [0, 0, 1.0]], 2, 4.0)
    out["left"] = smp([[0.1, 0.3, 0], [0.35, -0.05, 0], [0, 0, 0.7]], 3, 2.5)
    out["tri"] = smp([[0.3, 0.05, 0], [-0.08, 0.28, 0], [0.1, 0.07, 0.33]], 2)
    out["thick"] = smp([[0.5, 0, 0], [0, 0.5, 0], [0, 0, 2.0]], 4, 1.5, (4, 3, 1))
    a = smp([[0.3, 0, 0], [0, 0.4, 0], [0, 0, 0.5]], 1)
    b = smp([[0.5, 0, 0], [0, 0.5, 0], [0, 0, 2.0]], 2, 3.0)
    out["two"] = ref.Smp([a.scs[0], b.scs[0]], [(0, 1, {((0, 0, 0), 0, 1): 0.5})])
    return out


M = models()
W = {"hanning": lambda i, n: 0.5 * (1 + math.cos(math.pi * i / n)),
     "exp": lambda i, n: math.exp(-2.0 * (i / n) ** 2),
     "exp_ten": lambda i, n: 10.0 ** (-2.0 * (i / n) ** 2),
     "user": lambda i, n: 1.0 / (1 + i) - 0.1 * n}
DEFAULT = {"dos": "hanning", "ac": "exp", "dp": "exp_ten", "dc": "exp"}


def impl(name, q):
    """Arguments for the window: omitted for the default one of quantity q."""
    if name == "default":
        return (), W[DEFAULT[q]]
    if name == "user":
        return (W["user"],), W["user"]
    return (getattr(tb, "window_" + name),), W[name]


NT = {"quick": [1, 2, 3, 4, 5, 6, 9], "thorough": list(range(1, 13))}
LONG = {"quick": [33, 65, 130], "thorough": [17, 33, 65, 130, 257]}
TEMPS = [30.0, 300.0, 5000.0]
FACT = [None, 7.5]


def cases(tier):
    i = 0
    for m in M:
        for dim in (2, 3):
            for spin in (0, 1):
                for nt in NT[tier]:
                    for w in ("default", "hanning", "exp", "exp_ten", "user"):
                        yield [m, dim, spin, nt, w, TEMPS[i % 3], FACT[i % 2]]
                        i += 1
    for nt in LONG[tier]:
        for i, m in enumerate(("hex4", "left", "two")):
            yield [m, 2 + i % 2, i % 2, nt, ("default", "user")[i % 2], TEMPS[i], FACT[i % 2]]
    for m, dim in (("hex4", 2), ("left", 3)):
        for a, b in itertools.product(range(5), repeat=2):
            yield ["R", m, dim, a, b]
    yield ["E"]
    yield ["W"]


class World:
    def __init__(self, name, dim, spin, nt, temp, fact):
        self.m = M[name]
        built = {}
        scs = []
        for s in self.m.scs:
            c = ref.build_cell(tb, s.cell)
            scs.append(ref.build_sc(tb, c, s))
        self.s = ref.build_sample(tb, scs, self.m)
        self.s.rescale_ham(fact)
        h = self.m.ham((0, 0, 0))
        self.er = self.s.energy_range
        self.c = tb.Config()
        self.c.generic["nr_time_steps"] = nt
        self.c.generic["correct_spin"] = bool(spin)
        self.c.set_temperature(temp)
        self.beta = self.c.generic["beta"]
        self.nt = nt
        self.g = 2.0 if spin else 1.0
        self.dim = dim
        cell = self.m.scs[0].cell
        a, b, c = cell.lat
        self.size = np.linalg.norm(np.cross(a, b)) if dim == 2 else abs(np.linalg.det(cell.lat))
        self.nor = cell.n
        self.ext = cell.extended
        self.h = h

    one = None

    def an(self):
        return self.one or tb.Analyzer(self.s, self.c, dimension=self.dim)

    def change(self, nt, spin, temp, fact):
        """Change everything an analyzer in use depends on."""
        self.s.rescale_ham(fact)
        self.er = self.s.energy_range
        self.c.generic["nr_time_steps"] = self.nt = nt
        self.c.generic["correct_spin"] = bool(spin)
        self.c.set_temperature(temp)
        self.beta = self.c.generic["beta"]
        self.g = 2.0 if spin else 1.0


def basis(shape):
    """Unit vectors times 1 and i, and three mixed ones."""
    n = int(np.prod(shape))
    for k in range(n) if shape[-1] < 15 else (0, shape[-1] - 1, n - 1):
        for v in (1.0, 1j):
            x = np.zeros(n, complex)
            x[k] = v
            yield x.reshape(shape)
    for q in range(3 if shape[-1] < 15 else 1):
        yield np.array([complex(math.sin(1 + k * (q + 1.3)), math.cos(2 + k * (q + 0.7))) for k in range(n)]).reshape(shape)


def call(ctx, fn, data, *a, **k):
    """Call with copies, and verify that they are not altered."""
    d = [np.array(x) for x in data]
    out = fn(*d, *a, **k)
    for x, y in zip(d, data):
        ctx.true(np.array_equal(x, y), "the correlation data were modified")
    ctx.step()
    return out


def ref_dos(w, win, corr):
    nt = w.nt
    en = np.array([0.5 * i * w.er / nt - w.er / 2 for i in range(2 * nt)])
    out = np.zeros(2 * nt)
    for i, e in enumerate(en):
        s = complex(corr[0])
        for t in range(1, nt):
            z = corr[t] * cmath.exp(1j * e * t * 2 * math.pi / w.er)
            zc = np.conj(corr[t]) * cmath.exp(-1j * e * t * 2 * math.pi / w.er)
            s += win(t - 1, nt) * (z + zc)
        s += win(nt - 1, nt) * corr[nt] * cmath.exp(1j * e * nt * 2 * math.pi / w.er)
        out[i] = abs(s)
    return en, out


def fermi(e, mu, beta):
    return 0.5 * (1 - np.tanh(0.5 * beta * (e - mu)))


def ref_hilbert(x):
    n = len(x)
    f = np.array([sum(x[j] * cmath.exp(-2j * math.pi * j * k / n) for j in range(n)) for k in range(n)])
    h = np.zeros(n)
    h[0] = 1
    if n % 2 == 0:
        h[n // 2] = 1
        h[1:n // 2] = 2
    else:
        h[1:(n + 1) // 2] = 2
    return np.array([sum(f[k] * h[k] * cmath.exp(2j * math.pi * j * k / n) for k in range(n)) / n for j in range(n)]).imag


def run(case, ctx):
    if case[0] == "E":
        return errors(ctx)
    if case[0] == "W":
        return windows(ctx)
    if case[0] == "R":
        # one analyzer for everything
        _, name, dim, a, b = case
        do = [do_dos, do_ac, do_dp, do_dc, do_hall]
        w = World(name, dim, 0, 3, TEMPS[0], FACT[0])
        w.one = tb.Analyzer(w.s, w.c, dimension=dim)
        for n, k in enumerate((a, b, a)):
            if n:
                w.change(*((4, 1, TEMPS[1], 9.5), (2, 0, TEMPS[2], 8.25))[n - 1])
            do[k](ctx, w, "user" if n == 1 else "default")
            ctx.state(*case, n)
        ctx.trace(str(case))
        return
    name, dim, spin, nt, wn, temp, fact = case
    w = World(name, dim, spin, nt, temp, fact)
    ctx.state(*case)
    do_dos(ctx, w, wn)
    do_ac(ctx, w, wn)
    do_dp(ctx, w, wn)
    do_dc(ctx, w, wn)
    do_hall(ctx, w, wn)
    ctx.trace(str(case))


def do_dos(ctx, w, wn):
    a, win = impl(wn, "dos")
    nt = w.nt
    if nt <= 3:
        data = [np.array((1.0,) + v) for v in itertools.product((0, 1, -1, 1j), repeat=nt)]
    else:
        data = []
        for x in basis((nt + 1,)):
            x = 0.3 * x
            x[0] = 1.0
            data.append(x)
    en_step = 0.5 * w.er / nt
    an = w.an()
    for x in data:
        x = np.asarray(x, complex)
        en, d = ref_dos(w, win, x)
        if d.sum() < 1e-9:
            continue
        d = d / (d.sum() * en_step) * w.g
        for fn in (an.calc_dos, an.calc_ldos):
            ge, gd = call(ctx, fn, [x], *a)
            ctx.close(ge, en, "energies", 1e-10)
            ctx.close(gd, d, f"DOS of {x}", 1e-9)
            ctx.close(np.sum(gd) * en_step, w.g, "integral of the DOS", 1e-9)


def do_ac(ctx, w, wn):
    a, win = impl(wn, "ac")
    nt, dt = w.nt, math.pi / w.er
    pre = w.nor / (w.size * w.ext)
    om = [i * w.er / nt for i in range(nt)]
    an = w.an()
    for x in basis((4, nt)):
        re = np.zeros((4, nt))
        for j in range(4):
            for i in range(1, nt):
                s = sum(2 * win(k + 1, nt) * math.sin(om[i] * k * dt) * x[j, k].imag for k in range(nt))
                re[j, i] = pre * dt * s * (math.exp(-w.beta * om[i]) - 1) / om[i]
        want = np.zeros((4, nt), complex)
        for j in range(4):
            sg = np.zeros(2 * nt)
            for i in range(nt):
                sg[nt + i] = re[j, i]
                sg[nt - i] = re[j, i]
            want[j] = re[j] + 1j * (ref_hilbert(sg)[nt:] if np.any(sg) else 0)
        go, gc = call(ctx, an.calc_ac_cond, [x], *a)
        ctx.close(go, np.array(om), "frequencies", 1e-10)
        ctx.close(gc, want * w.g, "AC conductivity", 1e-9)
    # dielectric function at q = 0
    oms = np.array([0.5, 1.0, 2.5])
    ac = np.array([[complex(j, i) for i in range(3)] for j in range(4)])
    for be in (1.0, 3.2):
        w.c.dyn_pol["background_dielectric_constant"] = be
        if w.dim == 2:
            ctx.raises(lambda: an.calc_epsilon_q0(oms, ac), "q=0 dielectric function in 2d", ValueError)
        else:
            got = call(ctx, an.calc_epsilon_q0, [oms, ac])
            ctx.close(got, 1 + 4j * math.pi / (be * EPS0) * ac / oms, "dielectric function at q=0", 1e-9)
    w.c.dyn_pol["background_dielectric_constant"] = 1.0


def do_dp(ctx, w, wn):
    a, win = impl(wn, "dp")
    nt, dt = w.nt, math.pi / w.er
    om = [i * w.er / nt for i in range(nt)]
    for nq, (qs, cc, be) in enumerate((([[1.0, 0.0, 0.0]], 1.0, 1.0), ([[0.0, 0.0, 0.0], [0.3, -0.4, 0.0]], 2.0, 4.0),
                                       ([[2.0, 1.0, -2.0], [0.0, 0.0, 0.0], [0.0, 1e-3, 0.0]], 0.5, 1.7),
                                       ([[0.7, -0.2, 0.1]], 0.0, 2.5))):
        w.c.dyn_pol["q_points"] = qs
        w.c.dyn_pol["coulomb_constant"] = cc
        w.c.dyn_pol["background_dielectric_constant"] = be
        an = w.an()
        for x in basis((len(qs), nt)):
            if nq and np.sum(x != 0) == 1 and nt > 4:
                continue
            x = x.real.copy() if np.any(x.real) else x.imag.copy()
            want = np.zeros((len(qs), nt), complex)
            for i in range(len(qs)):
                for j in range(nt):
                    want[i, j] = 2 * w.nor / (w.size * w.ext) * dt * sum(
                        win(k + 1, nt) * x[i, k] * cmath.exp(1j * om[j] * k * dt) for k in range(nt)) * w.g
            gq, go, gd = call(ctx, an.calc_dyn_pol, [x], *a)
            ctx.close(gq, np.array(qs, float), "q-points", 1e-12)
            ctx.close(go, np.array(om), "frequencies", 1e-10)
            ctx.close(gd, want, "dynamical polarization", 1e-9)
            eps = call(ctx, an.calc_epsilon, [want])
            for i, q in enumerate(qs):
                n = math.sqrt(sum(t * t for t in q))
                v = 0.0 if n == 0 else (2 * math.pi / n if w.dim == 2 else 4 * math.pi / n ** 2) * cc / (EPS0 * be)
                ctx.close(eps[i], 1 - v * want[i], f"dielectric function at {q}", 1e-9)


def do_dc(ctx, w, wn):
    a, win = impl(wn, "dc")
    ad, wind = impl(wn, "dos")
    nt, dt = w.nt, 2 * math.pi / w.er
    full = [0.5 * i * w.er / nt - w.er / 2 for i in range(2 * nt)]
    for lim in ((-0.31 * w.er, 0.23 * w.er), (-w.er, w.er), (0.011 * w.er, 0.6 * w.er)):
        sel = [i for i, e in enumerate(full) if lim[0] <= e <= lim[1]]
        w.c.DC_conductivity["energy_limits"] = lim
        an = w.an()
        cd = np.array([0.5 * complex(math.cos(1.1 * t), -math.sin(0.7 * t)) for t in range(1, nt + 1)])
        _, d = ref_dos(w, wind, np.concatenate(([1.0], cd)))
        d = d / (d.sum() * 0.5 * w.er / nt) * w.g
        kw = {} if not a else {"window_dos": ad[0], "window_dc": a[0]}
        kd = {} if not a else {"window_dc": a[0]}
        for n, x in enumerate(basis((2, len(sel), nt))):
            if nt < 15 and n >= 24 and n < 4 * len(sel) * nt:
                continue
            want = np.zeros((2, len(sel)))
            dif = np.zeros((2, len(sel), nt))
            for i in range(2):
                for j, q in enumerate(sel):
                    f = [win(k + 1, nt) * (cmath.exp(-1j * full[q] * k * dt) * x[i, j, k]).real for k in range(nt)]
                    want[i, j] = w.nor / w.size * dt * d[q] * sum(f) * w.g
                    for k in range(1, nt):
                        dif[i, j, k] = dif[i, j, k - 1] + 0.5 * dt * (f[k] + f[k - 1])
            # data of energies outside the window are ignored by construction: pad as the solver does
            pad = np.zeros((2, 2 * nt, nt), complex)
            pad[:, :len(sel)] = x
            ge, gd = call(ctx, an.calc_dc_cond, [cd, pad], **kw)
            ctx.close(ge, np.array([full[q] for q in sel]), "energies of the DC conductivity", 1e-10)
            ctx.close(gd, want, f"DC conductivity {lim}", 1e-9)
            gt, gf = call(ctx, an.calc_diff_coeff, [pad], **kd)
            ctx.close(gt, np.arange(nt) * dt, "times", 1e-10)
            ctx.close(gf, dif, f"diffusion coefficient {lim}", 1e-9)


def do_hall(ctx, w, wn):
    if wn not in ("default", "user"):
        return
    rs = w.er / 2
    mus = [[0.0], [-0.5 * rs, 0.1, 0.9 * rs, 2 * rs]][wn == "user"]
    kerns = (21,) if w.nt > 15 else (1, 2, 3, 5) if ctx.tier == "quick" else (1, 2, 3, 4, 5, 7, 9)
    for nk in kerns:
        for ne in (2, 3, 8) if w.nt < 15 else (150,):
            w.c.dckb["n_kernel"] = nk
            w.c.dckb["energies"] = mus
            w.c.dckb["ne_integral"] = ne
            an = w.an()
            th = [k * math.pi / ne for k in range(1, ne)]
            gam = [[[(cmath.cos(t) - 1j * n * math.sin(t)) * cmath.exp(1j * n * t) * math.cos(m * t)
                     + (cmath.cos(t) + 1j * m * math.sin(t)) * cmath.exp(-1j * m * t) * math.cos(n * t)
                     for n in range(nk)] for m in range(nk)] for t in th]
            gam = np.array(gam)
            for n, x in enumerate(basis((nk, nk))):
                if nk < 15 and n >= 18 and n < 2 * nk * nk:
                    continue
                sg = [np.sum(g * x).real for g in gam]
                for unit, f in (("h_bar", 1.0), ("h", 2 * math.pi)):
                    want = [16 * w.nor / (math.pi * w.er ** 2) / w.size * f * w.g * sum(
                        s * fermi(math.cos(t) * rs, mu, w.beta) * math.pi / ne / math.sin(t) ** 3 for s, t in zip(sg, th)) for mu in mus]
                    ge, gc = call(ctx, an.calc_hall_cond, [x], unit=unit)
                    ctx.close(ge, np.array(mus), "chemical potentials", 1e-12)
                    ctx.close(gc, np.array(want), f"Hall conductivity, {nk} moments, {ne} points", 1e-9)
            ctx.raises(lambda: an.calc_hall_cond(np.zeros((nk, nk), complex), unit="eV"), "illegal unit", ValueError)


def errors(ctx):
    w = World("sq", 3, 0, 3, 300.0, None)
    for d in (0, 1, 4, -2, "3"):
        ctx.raises(lambda: tb.Analyzer(w.s, w.c, dimension=d), f"dimension {d}", ValueError)
        ctx.step()
    for sec in ("generic", "LDOS", "dyn_pol", "dckb"):
        c = tb.Config()
        getattr(c, sec)["nonsense"] = 1
        ctx.raises(lambda: tb.Analyzer(w.s, c), f"illegal parameter in {sec}", ValueError)
        ctx.step()
    ctx.trace("errors")


def windows(ctx):
    for n in range(1, 30):
        for i in range(0, n + 1):
            for k in ("hanning", "exp", "exp_ten"):
                ctx.close(getattr(tb, "window_" + k)(i, n), W[k](i, n), f"window {k}({i}, {n})", 1e-13)
            ctx.step(3)
    ctx.trace("windows")
