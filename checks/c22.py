"""C22: what is drawn or written equals the data and the model: artists of the figures and cube files against independent evaluation."""
import itertools
import math
import os

import matplotlib
matplotlib.use("Agg")
import matplotlib.pyplot as plt         # noqa: E402
import matplotlib.collections as mc     # noqa: E402
import matplotlib.patches as mp         # noqa: E402
from matplotlib.colors import to_rgb    # noqa: E402
import numpy as np                      # noqa: E402
from scipy.special import lpmv, genlaguerre   # noqa: E402
import tbplas as tb                     # noqa: E402

from lib import ref                     # noqa: E402

CHUNK = 2
BOUNDS = {"quick": "cube files: all orbitals n <= 4, l <= 3 x nuclear charges {1, 2, 6} x 3 grids; Bloch states of 3 cells x 5 k-points x 2 conventions x "
                   "4 ranges of cells x 3 kinds; 2 samples; 13 orbitals on grids of up to 31 points a line.  Model plots: 7 primitive cells (up to 13 orbitals, 30 terms) and 5 samples (up to 135 orbitals) x all combinations of orbitals/cells/conjugates/"
                   "arrows x 6 views x 3 cutoffs.  Data plots: all methods x sizes 1 to 4 and up to 150 x 20 x options",
          "thorough": "as quick with n <= 5 and all six views for all samples",
          "assumptions": ["figures are judged by the artists handed to matplotlib, not by pixels",
                          "a hopping term drawn without its conjugate may be drawn from either end"]}
BOHR = 0.052917721067


# ---------------------------------------------------------------- cube files
def hyd(z, n, l, m, d):
    """Hydrogen-like orbital with real spherical harmonics at displacements d (bohr)."""
    r = np.sqrt((d ** 2).sum(-1))
    rho = 2.0 * z * r / n
    norm = math.sqrt((2.0 * z / n) ** 3 * math.factorial(n - l - 1) / (2 * n * math.factorial(n + l)))
    rad = norm * np.exp(-rho / 2) * rho ** l * genlaguerre(n - l - 1, 2 * l + 1)(rho)
    safe = np.where(r > 0, r, 1)
    ct = np.where(r > 0, d[..., 2] / safe, 1.0)
    ph = np.arctan2(d[..., 1], d[..., 0])
    a = abs(m)
    k = math.sqrt((2 * l + 1) / (4 * math.pi) * math.factorial(l - a) / math.factorial(l + a)) * (-1) ** a
    y = k * lpmv(a, l, ct)
    if m > 0:
        y = math.sqrt(2) * y * np.cos(m * ph)
    elif m < 0:
        y = math.sqrt(2) * y * np.sin(a * ph)
    return rad * y


def read_cube(path):
    with open(path) as f:
        lines = f.read().split("\n")
    h = lines[2].split()
    na, org = int(h[0]), np.array([float(x) for x in h[1:4]])
    ng, ax = [], []
    for i in range(3):
        w = lines[3 + i].split()
        ng.append(int(w[0]))
        ax.append([float(x) for x in w[1:4]])
    atoms = []
    for i in range(na):
        w = lines[6 + i].split()
        atoms.append((int(w[0]), float(w[1]), tuple(float(x) for x in w[2:5])))
    val = " ".join(lines[6 + na:]).split()
    return org, ng, np.array(ax), atoms, np.array([float(x) for x in val])


def check_cube(ctx, path, org, size, res, cen, want_fn, atoms, what):
    """org, size, res in nm; want_fn(points) evaluates at points in bohr."""
    o, ng, ax, at, val = read_cube(path)
    exp = [int(round(s / res)) for s in size]
    ctx.equal(list(ng), exp, f"{what}: grid of the cube")
    ctx.close(o, np.array(org) / BOHR, f"{what}: origin of the cube", 1e-5)
    ctx.close(ax, np.eye(3) * res / BOHR, f"{what}: axes of the cube", 1e-5)
    ctx.equal(len(val), int(np.prod(exp)), f"{what}: number of values")
    g = np.stack(np.meshgrid(*[np.array(org)[i] / BOHR + np.arange(exp[i]) * res / BOHR for i in range(3)], indexing="ij"), -1)
    w = want_fn(g)
    s = max(float(np.max(np.abs(w))), 1e-30)
    ctx.close(val.reshape(exp) / s, w / s, f"{what}: values", 2e-5)
    key = lambda a: (a[0],) + tuple(round(x, 3) + 0.0 for x in a[2])
    got = sorted(key(a) for a in at)
    wan = sorted((z,) + tuple(round(x / BOHR, 3) + 0.0 for x in p) for z, p in atoms)
    ctx.equal(len(got), len(wan), f"{what}: number of atoms")
    ctx.close(np.array(got, float), np.array(wan, float), f"{what}: atoms", 3e-3)


def bloch(lat, pos, qn, wfc, k, conv, rn_max):
    """Value of the Bloch sum (nm in, bohr points), normalised to the number of cells."""
    rns = list(itertools.product(*[range(-x, x + 1) for x in rn_max]))
    inv = np.linalg.inv(lat)

    def f(g):
        out = np.zeros(g.shape[:-1], complex)
        for p, q, c in zip(pos, qn, wfc):
            for rn in rns:
                ph = np.dot(k, np.array(rn) + (p @ inv if conv == 1 else 0))
                out += c * np.exp(2j * math.pi * ph) / math.sqrt(len(rns)) * hyd(*q, g - (p + np.array(rn) @ lat) / BOHR)
        return out
    return f, [(q[0], tuple(p + np.array(rn) @ lat)) for p, q in zip(pos, qn) for rn in rns]


def distinct(atoms):
    seen = {}
    for z, p in atoms:
        seen[tuple(round(x, 6) for x in p)] = (z, p)
    return list(seen.values())


KIND = {"real": lambda x: x.real, "imag": lambda x: x.imag, "abs2": lambda x: np.abs(x) ** 2}


def cube_cell(i):
    if i == 0:
        r = ref.Cell([[0.3, 0, 0], [0, 0.35, 0], [0, 0, 0.4]], unit=1.0)
        r.add_orbital((0.25, 0.5, 0.1))
        r.add_orbital((0.75, 0.2, 0.6))
    elif i == 1:
        r = ref.Cell([[0.3, 0.1, 0], [-0.05, 0.4, 0.02], [0.1, 0, 0.5]], unit=1.0)
        r.add_orbital((0, 0, 0))
        r.add_orbital((0, 0, 0))
        r.add_orbital((0.4, 0.3, 0.2))
    else:
        r = ref.Cell([[0.25, 0, 0], [0.1, 0.3, 0], [0, 0, 0.4]], (0.11, -0.07, 0.2), unit=1.0)
        r.add_orbital((0.1, 0.2, 0.3))
        r.add_orbital((0.6, -0.4, 1.2))
    return r


QN = [[(1, 1, 0, 0), (2, 2, 1, 1)], [(2, 2, 0, 0), (2, 2, 1, -1), (6, 3, 2, 0)], [(3, 3, 2, -2), (1, 2, 1, 0)]]
WFC = [[0.6, 0.8j], [0.5, -0.5j, 0.3 + 0.4j], [1.0, -0.7 + 0.2j]]


def do_A(ctx, z, n, l, m, gi):
    """One orbital in one cell."""
    r = ref.Cell([[0.5, 0, 0], [0, 0.5, 0], [0, 0, 0.5]], unit=1.0)
    r.add_orbital([(0.5, 0.5, 0.5), (0.5, 0.25, 0.0), (0.1, 0.3, 0.7)][gi])
    c = ref.build_cell(tb, r)
    org = [(0.0, 0.0, 0.0), (0.25, -0.125, -0.25), (-0.03, 0.02, 0.11)][gi]
    size = [(0.5, 0.375, 0.625), (0.375, 0.5, 0.5), (0.5, 0.25, 0.125)][gi]
    path = os.path.join(ctx.workdir(), "a.cube")
    f, atoms = bloch(r.lat, r.pos_nm(), [(z, n, l, m)], [1.0], (0, 0, 0), 1, (0, 0, 0))
    tb.Visualizer().plot_wfc3d(c, np.array([1.0]), np.array([[z, n, l, m]]), cube_name=path, cube_origin=np.array(org),
                               cube_size=np.array(size), resolution=0.125)
    check_cube(ctx, path, org, size, 0.125, None, lambda g: f(g).real, atoms, f"orbital Z={z} n={n} l={l} m={m}")
    ctx.state(z, n, l, m, gi)
    ctx.step()
    ctx.trace(f"{z} {n} {l} {m} {gi}")


def do_B(ctx, i, k, conv):
    r = cube_cell(i)
    c = ref.build_cell(tb, r)
    path = os.path.join(ctx.workdir(), "b.cube")
    for rn in ((0, 0, 0), (1, 0, 0), (0, 1, 2), (1, 1, 1)):
        f, atoms = bloch(r.lat, r.pos_nm(), QN[i], WFC[i], k, conv, rn)
        atoms = distinct(atoms)
        for kind in KIND:
            if i == 2 and conv == 1 and kind != "abs2" and any(k):
                continue         # the origin adds a global phase
            org, size = (-0.1, 0.05, 0.0), (0.5, 0.375, 0.25)
            wfc = np.array(WFC[i])
            tb.Visualizer().plot_wfc3d(c, wfc, QN[i], convention=conv, k_point=k, rn_max=np.array(rn), cube_name=path,
                                       cube_origin=np.array(org), cube_size=np.array(size), resolution=0.125, kind=kind)
            check_cube(ctx, path, org, size, 0.125, None, lambda g: KIND[kind](f(g)), atoms,
                       f"Bloch state of cell {i}, k {k}, cells {rn}, convention {conv}, {kind}")
            ctx.equal(list(wfc), WFC[i], "the state was modified")
            ctx.state(i, k, conv, rn, kind)
            ctx.step()
    ref.check_cell(ctx, c, r, deep=False)
    ctx.trace(f"{i} {k} {conv}")


def do_D(ctx, g):
    """Many orbitals; grids longer than the lines of the file."""
    r = pcs()[6]
    c = ref.build_cell(tb, r)
    path = os.path.join(ctx.workdir(), "d.cube")
    n = [(2, 3, 6), (1, 2, 7), (3, 1, 12), (2, 2, 31), (6, 7, 1)][g]
    qn = [((1, 1, 0, 0), (6, 2, 1, -1), (2, 3, 2, 1))[i % 3] for i in range(r.n)]
    w = np.array([math.cos(i) - 1j * math.sin(2 * i) for i in range(r.n)])
    k = (0.1, 0.4, -0.3)
    org, size = (-0.2, 0.1, 0.15), [x * 0.0625 for x in n]
    for conv, kind in itertools.product((1, 2), KIND):
        if conv == 1 and kind != "abs2":
            continue         # the origin adds a global phase
        f, atoms = bloch(r.lat, r.pos_nm(), qn, w, k, conv, (1, 0, 1))
        tb.Visualizer().plot_wfc3d(c, w, qn, convention=conv, k_point=k, rn_max=np.array((1, 0, 1)), cube_name=path,
                                   cube_origin=np.array(org), cube_size=np.array(size), resolution=0.0625, kind=kind)
        check_cube(ctx, path, org, size, 0.0625, None, lambda x: KIND[kind](f(x)), distinct(atoms), f"{r.n} orbitals on {n} points, {kind}, convention {conv}")
        ctx.state("D", g, conv, kind)
        ctx.step()
    ctx.trace(g)


def do_C(ctx, i):
    """Defaults, and samples."""
    path = os.path.join(ctx.workdir(), "c.cube")
    if i < 2:
        r = cube_cell(i)
        c = ref.build_cell(tb, r)
        p = r.pos_nm()
        f, atoms = bloch(r.lat, p, QN[i], WFC[i], (0, 0, 0), 1, (0, 0, 0))
        tb.Visualizer().plot_wfc3d(c, np.array(WFC[i]), QN[i], cube_name=path, resolution=0.125)
        check_cube(ctx, path, p.min(0), (1, 1, 1), 0.125, None, lambda g: f(g).real, distinct(atoms), f"default cube of cell {i}")
    else:
        # a long cell: the default cube covers the orbitals
        r = ref.Cell([[2.5, 0, 0], [0, 0.5, 0], [0, 0, 3.0]], unit=1.0)
        r.add_orbital((0.1, 0, 0.25), 0.1)
        r.add_orbital((0.7, 0.5, 0.0), 0.2)
        r.add_hopping((0, 0, 0), 0, 1, 1.0)
        s = ref.SC(r, (1, 1, 1) if i == 2 else (2, 1, 1), (0, 0, 0), (), None)
        smp = tb.Sample(ref.build_sc(tb, ref.build_cell(tb, r), s))
        p = s.pos()
        n = s.n
        qn = [(1, 2, 1, 1), (1, 1, 0, 0)] * (n // 2)
        w = [0.3 * (j + 1) - 0.2j * j for j in range(n)]
        d = p.max(0) - p.min(0)
        size = [max(1.0, x) for x in d]
        if any(abs(x / 0.25 - round(x / 0.25)) > 1e-9 for x in size):
            size = None
        f, atoms = bloch(s.lat, p, qn, w, (0, 0, 0.3), 1, (0, 1, 0))
        org = p.min(0)
        kw = {} if size is not None else dict(cube_size=np.array([2.0, 0.5, 1.0]))
        size = size or [2.0, 0.5, 1.0]
        tb.Visualizer().plot_wfc3d(smp, np.array(w), qn, k_point=[0, 0, 0.3], rn_max=[0, 1, 0], cube_name=path, resolution=0.25,
                                   kind="abs2", **kw)
        check_cube(ctx, path, org, size, 0.25, None, lambda g: np.abs(f(g)) ** 2, distinct(atoms), f"cube of sample {i}")
    ctx.state("default", i)
    ctx.step()
    ctx.trace(i)


# ---------------------------------------------------------------- figures
class Shot:
    """What a figure holds."""

    def __init__(self, fig):
        self.fig = fig
        self.ax = fig.axes[0]
        ax = self.ax
        self.points = [(np.array(c.get_offsets(), float), None if c.get_array() is None else np.array(c.get_array(), float), c)
                       for c in ax.collections if isinstance(c, mc.PathCollection)]
        self.lines = [(to_rgb(c.get_colors()[0]) if len(c.get_colors()) else None, [np.array(s, float) for s in c.get_segments()])
                      for c in ax.collections if isinstance(c, mc.LineCollection)]
        self.arrows = [(to_rgb(a.get_edgecolor()[:3]), np.array([[a._x, a._y], [a._x + a._dx, a._y + a._dy]], float))
                       for a in ax.patches if isinstance(a, mp.FancyArrow)]


def shoot(ctx, fn):
    """Run fn with plt.show() replaced; return what it showed."""
    got = []
    old = plt.show
    before = len(plt.get_fignums())
    plt.show = lambda *a, **k: got.append(Shot(plt.gcf()))
    try:
        fn()
    finally:
        plt.show = old
    ctx.equal(len(got), 1, "number of figures shown")
    ctx.equal(len(plt.get_fignums()), before, "figures left open")
    return got[0]


def rows(a, nd=7):
    return sorted(tuple(round(float(x), nd) + 0.0 for x in np.ravel(r)) for r in a)


def same_rows(ctx, got, want, what):
    g, w = rows(got, 6), rows(want, 6)
    ctx.equal(len(g), len(w), f"{what}: number")
    if w and g != w:
        # tolerate rounding at the last digit
        ctx.close(np.array(g), np.array(w), what, 3e-6)


DIM = {"a": 0, "b": 1, "c": 2}
VIEWS = ["ab", "bc", "ca", "ba", "cb", "ac"]


def match_terms(ctx, segs, terms, conj, arrows, what):
    """segs: drawn (2, 2) segments; terms: (A, B) both representations of every bond."""
    def key(s):
        a = tuple(round(float(x), 6) + 0.0 for x in s[0])
        b = tuple(round(float(x), 6) + 0.0 for x in s[1])
        if not arrows and b < a:
            a, b = b, a
        return a + b
    pool = [np.array(key(s)) for s in segs]

    def take(s):
        if not pool:
            return False
        k = np.array(key(s))
        d = [np.abs(p - k).max() for p in pool]
        i = int(np.argmin(d))
        if d[i] > 3e-6:
            return False
        pool.pop(i)
        return True
    ctx.equal(len(pool), len(terms) * (2 if conj else 1), f"{what}: number of hopping terms drawn")
    for a, b in terms:
        if conj:
            ctx.true(take(a), lambda: f"{what}: hopping term {a} is not drawn")
            ctx.true(take(b), lambda: f"{what}: conjugate hopping term {b} is not drawn")
        else:
            ctx.true(take(a) or take(b), lambda: f"{what}: hopping term {a} is not drawn")


def pcs():
    out = []
    r = ref.Cell([[0.3, 0, 0], [0, 0.4, 0], [0, 0, 0.5]], unit=1.0)
    out.append(r)                                     # empty
    r = r.clone()
    r.add_orbital((0.2, 0.3, 0.4), 0.5)
    out.append(r)                                     # one orbital
    r = r.clone()
    r.add_hopping((1, 0, 0), 0, 0, -1.0)
    r.add_hopping((0, 1, 0), 0, 0, 1e-3)
    out.append(r)
    q = ref.Cell([[0.25, 0.05, 0], [-0.1, 0.3, 0.02], [0, 0.1, 0.4]], (0.1, 0.2, -0.3), unit=1.0)
    q.add_orbital((0, 0, 0), 0.0)
    q.add_orbital((0.5, 0.4, 0.3), -0.6)
    q.add_hopping((0, 0, 0), 0, 1, 1.0)
    q.add_hopping((1, 0, 0), 0, 1, 0.4 - 0.7j)
    q.add_hopping((0, -1, 1), 1, 1, 0.2j)
    out.append(q)
    q = q.clone()
    q.add_orbital((0.9, -0.4, 0.1), 1.6)
    q.add_hopping((0, -2, 0), 2, 0, 1e-3j)
    q.add_hopping((0, 0, 1), 1, 2, -0.3)
    out.append(q)
    q = ref.Cell([[0.2, 0.1, 0], [0.2, -0.1, 0], [0, 0, 1.0]], (0, 0.1, 0), unit=1.0)
    for i in range(4):
        q.add_orbital((0.1 * i, 0.2 * i, 0.0), 0.3 * i)
    for i in range(3):
        q.add_hopping((i, -i, 0), i, i + 1, 1e-6 if i == 1 else 1.0 + i)
    out.append(q)
    q = ref.Cell([[0.3, 0.05, 0.01], [0.02, 0.35, -0.03], [-0.04, 0.06, 0.5]], (-0.2, 0.1, 0.3), unit=1.0)      # many orbitals and terms
    for i in range(13):
        q.add_orbital((0.07 * i - 0.2, (0.31 * i) % 1.0, 0.6 - 0.09 * i), 0.1 * i - 0.5)
    for i in range(30):
        q.add_hopping((i % 4 - 1, (i // 4) % 3 - 1, i % 2), i % 13, (3 * i + 1) % 13, (1e-3 if i % 5 == 0 else 0.1 + 0.05 * i) * (1j if i % 3 else 1))
    out.append(q)
    return out


def smps():
    S = ref.SC
    P = pcs()
    z, q, t = P[2], P[3], P[5]
    q2 = ref.Cell(q.lat, q.origin, unit=1.0)
    q2.add_orbital((0, 0, 0), 0.1)
    q2.add_orbital((0.5, 0.4, 0.3), -0.6)
    q2.add_hopping((0, 0, 0), 0, 1, 1.0)
    q2.add_hopping((1, 0, 0), 1, 1, 1e-3)
    out = [ref.Smp([S(z, (3, 3, 1), (1, 0, 0), [(1, 1, 0, 0)], None)]),
           ref.Smp([S(q2, (3, 1, 2), (0, 0, 0), [(0, 0, 0, 1)], None)])]
    a = S(q2, (3, 1, 1), (1, 0, 0), (), None)
    b = S(z, (3, 3, 1), (0, 0, 0), [(i, 2, 0, 0) for i in range(3)], None)
    out.append(ref.Smp([a, b], [(0, 1, {((0, 0, 0), 0, 1): 0.3 + 0.1j, ((1, 0, 0), 3, 0): -0.5, ((0, 0, 0), 2, 2): 1e-3})]))
    c = S(q2, (3, 1, 1), (1, 0, 0), [(2, 0, 0, 1)], "shift")
    c.add_hopping((0, 0, 0), 0, 4, 0.35 - 0.2j)
    out.append(ref.Smp([c]))
    big = ref.Cell(P[6].lat, P[6].origin, unit=1.0)
    for o in P[6].orbs:
        big.add_orbital(*o[:2])
    for i in range(20):
        big.add_hopping((i % 3 - 1, 0, 0), i % 13, (3 * i + 2) % 13, (1e-3 if i % 5 == 0 else 0.1 + 0.05 * i) * (1j if i % 3 else 1))
    a = S(big, (3, 1, 2), (0, 0, 0), [(0, 0, 0, 3), (1, 0, 1, 12)], "shift")
    b = S(z, (9, 4, 1), (1, 0, 0), [(8, 3, 0, 0)], None)
    c = S(q2, (4, 1, 3), (0, 0, 0), (), None)
    out.append(ref.Smp([a, b, c], [(0, 1, {((0, 0, 0), i, (5 * i) % 30): 0.3 + 0.1j * i for i in range(0, 60, 7)}),
                                   (1, 2, {((0, 0, 0), 34, 23): -0.5, ((1, 0, 0), 2, 20): 1e-3})]))
    return out


def built(m):
    cells = {}
    scs = []
    for s in m.scs:
        if id(s.cell) not in cells:
            cells[id(s.cell)] = ref.build_cell(tb, s.cell)
        scs.append(ref.build_sc(tb, cells[id(s.cell)], s))
    return ref.build_sample(tb, scs, m), scs


def grid(lat, org, view, lo, hi, px):
    """Border lines of the cells lo..hi (indices of the two lattice vectors in the view)."""
    u, v = sorted(DIM[x] for x in view)
    segs = []
    for i in range(lo[u], hi[u] + 1):
        segs.append((i * lat[u] + lo[v] * lat[v], i * lat[u] + hi[v] * lat[v]))
    for j in range(lo[v], hi[v] + 1):
        segs.append((lo[u] * lat[u] + j * lat[v], hi[u] * lat[u] + j * lat[v]))
    return [np.array([px(a + org), px(b + org)]) for a, b in segs]


def und(segs):
    return [sorted(tuple(np.round(x, 7) + 0.0) for x in s) for s in segs]


def split(shot, hop_rgb):
    hop = [s for c, s in shot.arrows if np.allclose(c, hop_rgb)]
    latt = [s for c, s in shot.arrows if not np.allclose(c, hop_rgb)]
    hl = [s for c, ss in shot.lines if c is not None and np.allclose(c, hop_rgb) for s in ss]
    gl = [s for c, ss in shot.lines if c is not None and not np.allclose(c, hop_rgb) for s in ss]
    return hop, latt, hl, gl


def hue(k):
    return ["b", "g", "r", "c", "m", "y", "k"][k % 7]


def colours(ctx, shot, want, what):
    """Every orbital has the colour its index asks for."""
    got = {}
    for pts, arr, c in shot.points:
        ctx.true(arr is None, f"{what}: given colours replaced")
        fc = c.get_facecolors()
        for k, p in enumerate(pts):
            got.setdefault(tuple(np.round(p, 5) + 0.0), set()).add(tuple(fc[k % len(fc)][:3]))
    for p, h in want:
        at = [v for q, v in got.items() if np.allclose(q, p, atol=2e-5)]
        ctx.true(any(tuple(to_rgb(h)) in v for v in at), lambda: f"{what}: the orbital at {p} is not drawn in {h}")
    ctx.step()


def files(ctx, fn, what):
    """Size and resolution of the figure; the file instead of the screen."""
    shot = shoot(ctx, lambda: fn(fig_size=(3.0, 2.0)))
    ctx.close(shot.fig.get_size_inches(), [3.0, 2.0], f"{what}: size of the figure")
    path = os.path.join(ctx.workdir(), "m.png")
    shown, old = [], plt.show
    plt.show = lambda *a, **k: shown.append(1)
    try:
        for dpi in (20, 50):
            fn(fig_name=path, fig_dpi=dpi, fig_size=(3.0, 2.0))
            ctx.equal(list(plt.imread(path).shape[:2]), [2 * dpi, 3 * dpi], f"{what}: pixels of the file")
            os.remove(path)
    finally:
        plt.show = old
    ctx.equal(shown, [], f"{what}: figures shown although a file was asked for")
    ctx.equal(len(plt.get_fignums()), 0, "figures left open")
    ctx.step(3)


def do_M(ctx, i, view, cut):
    r = pcs()[i]
    px = lambda p: np.array([p[DIM[view[0]]], p[DIM[view[1]]]])
    rgb = to_rgb("g")
    pos = r.pos_nm()
    for orb, cells, conj, arr in itertools.product((True, False), repeat=4):
        c = ref.build_cell(tb, r)
        shot = shoot(ctx, lambda: c.plot(with_orbitals=orb, with_cells=cells, with_conj=conj, hop_as_arrows=arr, hop_eng_cutoff=cut,
                                         hop_color="g", view=view))
        what = f"plot of cell {i}, view {view}, cutoff {cut}, orbitals {orb}, cells {cells}, conjugates {conj}, arrows {arr}"
        hop, latt, hl, gl = split(shot, rgb)
        ind = np.array(c.hop_ind).reshape(-1, 5)[:, :3] if r.hops else np.zeros((1, 3), int)
        if conj:
            ind = np.concatenate([ind, -ind])
        lo, hi = (ind.min(0), ind.max(0)) if r.hops else (np.zeros(3, int), np.zeros(3, int))
        # orbitals
        if orb and r.n:
            want, eng = [], []
            for rn in itertools.product(*[range(lo[d], hi[d] + 1) for d in range(3)]):
                for p, e in zip(pos, r.eng()):
                    want.append(np.append(px(p + np.array(rn) @ r.lat), e))
            got = [np.append(p, e) for pts, es, _ in shot.points for p, e in zip(pts, es)]
            same_rows(ctx, got, want, f"{what}: orbitals")
        else:
            ctx.equal(sum(len(p) for p, _, _ in shot.points), 0, f"{what}: orbitals drawn")
        # hopping terms
        terms = []
        for (rn, a, b), e in r.hops.items():
            if abs(e) < cut:
                continue
            d = pos[b] + np.array(rn) @ r.lat - pos[a]
            terms.append((np.array([px(pos[a]), px(pos[a] + d)]), np.array([px(pos[b]), px(pos[b] - d)])))
        match_terms(ctx, hop if arr else hl, terms, conj, arr, what)
        ctx.equal(len(hl if arr else hop), 0, f"{what}: hopping terms in the other style")
        if cells:
            same_rows(ctx, und(gl), und(grid(r.lat, r.origin, view, lo, hi + 1, px)), f"{what}: borders of cells")
            same_rows(ctx, latt, [np.array([px(r.origin), px(r.origin + r.lat[DIM[x]])]) for x in view], f"{what}: lattice vectors")
        else:
            ctx.equal((len(gl), len(latt)), (0, 0), f"{what}: cells drawn")
        ctx.state(i, view, cut, orb, cells, conj, arr)
        ctx.step()
    if cut == 0.0:
        seen = []
        c = ref.build_cell(tb, r)
        shot = shoot(ctx, lambda: c.plot(orb_color=lambda o: seen.append([x.energy for x in o]) or ["b"] * len(o), view=view))
        ctx.equal(seen, [list(r.eng())], "orbitals passed to the colouring function")
        ctx.raises(lambda: c.plot(view=view[0] * 2), "illegal view", ValueError)
        plt.close("all")
        colours(ctx, shoot(ctx, lambda: c.plot(orb_color=lambda o: [hue(k) for k in range(len(o))], view=view)),
                [(px(p), hue(k)) for k, p in enumerate(pos)], f"orbitals of cell {i}, view {view}")
        files(ctx, lambda **kw: c.plot(view=view, **kw), f"cell {i}")
    ref.check_cell(ctx, c, r, deep=False)
    ctx.trace(f"{i} {view} {cut}")


def do_N(ctx, i, view, cut):
    m = smps()[i]
    px = lambda p: np.array([p[DIM[view[0]]], p[DIM[view[1]]]])
    cols = ["g", "m", "y"][:len(m.scs)]
    icols = ["c", "tab:orange"][:len(m.inter)]
    for orb, cells, conj, arr in itertools.product((True, False), repeat=4):
        smp, scs = built(m)
        kw = dict(with_orbitals=orb, with_cells=cells, with_conj=conj, hop_as_arrows=arr, hop_eng_cutoff=cut, view=view)
        shot = shoot(ctx, lambda: smp.plot(sc_hop_colors=cols, inter_hop_colors=icols, **kw))
        what = f"plot of sample {i}, view {view}, cutoff {cut}, orbitals {orb}, cells {cells}, conjugates {conj}, arrows {arr}"
        if orb:
            same_rows(ctx, [np.append(p, e) for pts, es, _ in shot.points for p, e in zip(pts, es)],
                      [np.append(px(p), e) for p, e in zip(m.pos(), m.eng())], f"{what}: orbitals")
        else:
            ctx.equal(sum(len(p) for p, _, _ in shot.points), 0, f"{what}: orbitals drawn")
        groups = [(cols[k], m.scs[k].pos(), m.scs[k].pos(), m.scs[k].terms()) for k in range(len(m.scs))]
        for k, (b, t, ts) in enumerate(m.inter):
            pb, pk, lat = m.scs[b].pos(), m.scs[t].pos(), m.scs[t].lat
            groups.append((icols[k], pb, pk, [(x, y, e, pk[y] + np.array(rn) @ lat - pb[x]) for (rn, x, y), e in ts.items()]))
        allrgb = []
        for col, pi, pj, ts in groups:
            rgb = to_rgb(col)
            allrgb.append(rgb)
            hop, _, hl, _ = split(shot, rgb)
            terms = [(np.array([px(pi[a]), px(pi[a] + d)]), np.array([px(pj[b]), px(pj[b] - d)])) for a, b, e, d in ts if abs(e) >= cut]
            match_terms(ctx, hop if arr else hl, terms, conj, arr, f"{what}, group {col}")
            ctx.equal(len(hl if arr else hop), 0, f"{what}: hopping terms in the other style")
        rest = [s for c, s in shot.arrows if not any(np.allclose(c, x) for x in allrgb)]
        gl = [s for c, ss in shot.lines if c is not None and not any(np.allclose(c, x) for x in allrgb) for s in ss]
        if cells:
            wg, wl = [], []
            for s in m.scs:
                wg += grid(s.cell.lat, s.cell.origin, view, (0, 0, 0), s.dim, px)
                wl += [np.array([px(s.cell.origin), px(s.cell.origin + s.cell.lat[DIM[x]])]) for x in view]
            same_rows(ctx, und(gl), und(wg), f"{what}: borders of cells")
            same_rows(ctx, rest, wl, f"{what}: lattice vectors")
        else:
            ctx.equal((len(gl), len(rest)), (0, 0), f"{what}: cells drawn")
        ctx.state("smp", i, view, cut, orb, cells, conj, arr)
        ctx.step()
    smp, scs = built(m)
    shot = shoot(ctx, lambda: smp.plot(view=view, hop_eng_cutoff=cut))        # defaults
    ctx.equal(len([1 for c, _ in shot.arrows if np.allclose(c, to_rgb("r"))]), sum(abs(t[2]) >= cut for t in m.terms()),
              "hopping terms drawn by default")
    if cut == 0.01:
        seen = []

        def colour(k):
            return lambda ids: seen.append([tuple(int(x) for x in q) for q in ids]) or [hue(k + 3 * j) for j in range(len(ids))]
        shot = shoot(ctx, lambda: smp.plot(sc_orb_colors=[colour(k) for k in range(len(m.scs))], view=view))
        ctx.equal(seen, [[tuple(int(x) for x in q) for q in s.ids()] for s in m.scs], "orbitals passed to the colouring functions")
        colours(ctx, shot, [(px(p), hue(k + 3 * j)) for k, s in enumerate(m.scs) for j, p in enumerate(s.pos())], f"orbitals of sample {i}, view {view}")
        ctx.raises(lambda: smp.plot(view=view[0] * 2), "illegal view", ValueError)
        plt.close("all")
        files(ctx, lambda **kw: smp.plot(view=view, **kw), f"sample {i}")
    ctx.trace(f"{i} {view} {cut}")


def vis():
    return tb.Visualizer()


def opts(ctx, base, fn, what):
    """Labels, limits, beautifier, file: common options of figures."""
    shot = shoot(ctx, lambda: fn(x_label="X1", y_label="Y1"))
    ctx.equal((shot.ax.get_xlabel(), shot.ax.get_ylabel()), ("X1", "Y1"), f"{what}: labels")
    hits = []
    shoot(ctx, lambda: fn(beautifier=lambda: hits.append(len(plt.gcf().axes))))
    ctx.equal(len(hits), 1, f"{what}: calls of the beautifier")
    path = os.path.join(ctx.workdir(), "f.png")
    fn(fig_name=path, fig_dpi=20)
    ctx.true(os.path.getsize(path) > 0, f"{what}: figure file")
    os.remove(path)
    ctx.equal(len(plt.get_fignums()), 0, "figures left open")
    shot = shoot(ctx, lambda: fn(fig_size=(3.0, 2.0)))
    ctx.close(shot.fig.get_size_inches(), [3.0, 2.0], f"{what}: size of the figure")
    ctx.step(4)


def data(n, m=1, s=0):
    return np.array([[math.sin(1.3 * i + 2.1 * j + s) for j in range(m)] for i in range(n)])


def do_X(ctx, n, m):
    x, y = np.cumsum(1 + data(n)[:, 0] ** 2), data(n, m, 1)
    xc, yc = x.copy(), y.copy()
    for f, name in ((vis().plot_xy, "plot_xy"), (vis().plot_dos, "plot_dos")):
        shot = shoot(ctx, lambda: f(x, y[:, 0], color="b"))
        ls = shot.ax.get_lines()
        ctx.equal(len(ls), 1, f"{name}: curves")
        ctx.close(np.array(ls[0].get_xydata()), np.c_[x, y[:, 0]], f"{name}: data")
        ctx.equal(to_rgb(ls[0].get_color()), to_rgb("b"), f"{name}: colour")
        opts(ctx, None, lambda **k: f(x, y[:, 0], **k), name)
        shot = shoot(ctx, lambda: f(x, y[:, 0], x_lim=(-1, 2.5), y_lim=(-3, 4)))
        ctx.close(shot.ax.get_xlim() + shot.ax.get_ylim(), (-1, 2.5, -3, 4), f"{name}: limits")
    k_len = x - x[0]
    for idx in (list(range(n)), [0, n - 1], [0]):
        lab = [f"K{i}" for i in idx]
        shot = shoot(ctx, lambda: vis().plot_bands(k_len, y, np.array(idx), lab))
        ls = [np.array(l.get_xydata()) for l in shot.ax.get_lines()]
        curves = [l for l in ls if l.shape == (n, 2) and np.allclose(l[:, 0], k_len)]
        for b in range(m):
            ctx.true(any(np.allclose(l[:, 1], y[:, b]) for l in curves), f"plot_bands: band {b} of {m} is not drawn")
        ctx.equal(len(ls), m + len(idx), "plot_bands: number of lines")
        same_rows(ctx, [[t] for t in shot.ax.get_xticks()], [[k_len[i]] for i in idx], "plot_bands: ticks")
        ctx.equal([t.get_text() for t in shot.ax.get_xticklabels()], lab, "plot_bands: labels")
        if n > 1:
            ctx.close(shot.ax.get_xlim(), (0, k_len.max()), "plot_bands: range")
        marks = [l for l in ls if np.allclose(l[:, 0], l[0, 0]) and np.allclose(l[:, 1], [0, 1]) and len(l) == 2]
        if n > 1:
            same_rows(ctx, [[l[0, 0]] for l in marks], [[k_len[i]] for i in idx], "plot_bands: marks of the high-symmetry points")
    opts(ctx, None, lambda **k: vis().plot_bands(k_len, y, np.array([0]), ["G"], **k), "plot_bands")
    for sc, po in itertools.product((True, False), repeat=2):
        shot = shoot(ctx, lambda: vis().plot_phases(x, y, scatter=sc, polar=po))
        got = [p for p, _, _ in shot.points] if sc else [np.array(l.get_xydata()) for l in shot.ax.get_lines()]
        want = [np.c_[y[:, b], x] if po else np.c_[x, y[:, b]] for b in range(m)]
        same_rows(ctx, np.concatenate(got), np.concatenate(want), f"plot_phases scatter {sc} polar {po}")
        ctx.equal(shot.ax.name == "polar", po, "plot_phases: projection")
    opts(ctx, None, lambda **k: vis().plot_phases(x, y, **k), "plot_phases")
    ctx.true(np.array_equal(x, xc) and np.array_equal(y, yc), "the data were modified")
    ctx.state("xy", n, m)
    ctx.trace(f"{n} {m}")


def model_of(i):
    """(implementation model, positions, terms)"""
    if i < 4:
        r = pcs()[3 + i]
        p = r.pos_nm()
        return ref.build_cell(tb, r), p, [(a, b, e, p[b] + np.array(rn) @ r.lat - p[a]) for (rn, a, b), e in r.hops.items()]
    m = smps()[i - 4]
    return built(m)[0], m.pos(), m.terms()


def check_model(ctx, shot, p, ts, what):
    segs = [s for _, ss in shot.lines for s in ss]
    terms = [(np.array([p[a][:2], (p[a] + d)[:2]]), np.array([p[b][:2], (p[b] - d)[:2]])) for a, b, e, d in ts]
    match_terms(ctx, segs, terms, False, False, what)


def do_V(ctx, i):
    mod, p, ts = model_of(i)
    n = len(p)
    x, y = p[:, 0].copy(), p[:, 1].copy()
    z = np.array([0.7 * math.sin(3 * k + 1) for k in range(n)])
    u, v = np.cos(np.arange(n) + 0.3), 2 * np.sin(np.arange(n) * 1.7)
    for wm in (True, False):
        mm = mod if wm else None
        shot = shoot(ctx, lambda: vis().plot_scalar(x, y, z, scatter=True, model=mm, site_size=np.arange(1, n + 1), with_colorbar=wm))
        pts, arr, c = shot.points[0]
        ctx.close(np.c_[pts, arr], np.c_[x, y, z], "plot_scalar: points")
        ctx.close(c.get_sizes(), np.arange(1, n + 1), "plot_scalar: sizes")
        check_model(ctx, shot, p, ts if wm else [], "plot_scalar: model")
        shot = shoot(ctx, lambda: vis().plot_vector(x, y, u, v, model=mm, with_colorbar=wm))
        q = [c for c in shot.ax.collections if type(c).__name__ == "Quiver"]
        ctx.equal(len(q), 1, "plot_vector: quivers")
        ctx.close(np.c_[q[0].X, q[0].Y, q[0].U, q[0].V], np.c_[x, y, u, v], "plot_vector: arrows")
        ctx.close(np.array(q[0].get_array(), float), np.hypot(u, v), "plot_vector: colours")
        check_model(ctx, shot, p, ts if wm else [], "plot_vector: model")
        shot = shoot(ctx, lambda: vis().plot_wfc(mod, z, scatter=True, with_model=wm))
        pts, arr, c = shot.points[0]
        ctx.close(np.c_[pts, arr], np.c_[x, y, z], "plot_wfc: points")
        check_model(ctx, shot, p, ts if wm else [], "plot_wfc: model")
    for cm in ("viridis", "jet"):
        kw = dict(model=mod, model_style={"color": "g"}, cmap=cm, fig_size=(4.0, 2.5))
        for shot, what in ((shoot(ctx, lambda: vis().plot_scalar(x, y, z, scatter=True, **kw)), "plot_scalar"),
                           (shoot(ctx, lambda: vis().plot_vector(x, y, u, v, **kw)), "plot_vector"),
                           (shoot(ctx, lambda: vis().plot_wfc(mod, z, scatter=True, with_model=True, model_style={"color": "g"}, cmap=cm,
                                                              fig_size=(4.0, 2.5))), "plot_wfc")):
            maps = [c.get_cmap().name for c in shot.ax.collections if not isinstance(c, mc.LineCollection)]
            ctx.equal(maps, [cm], f"{what}: colour map")
            ctx.equal([c for c, ss in shot.lines if ss], [to_rgb("g")] if ts else [], f"{what}: colour of the model")
            ctx.close(shot.fig.get_size_inches(), [4.0, 2.5], f"{what}: size of the figure")
            ctx.step()
    shot = shoot(ctx, lambda: vis().plot_scalar(x, y, z, scatter=True, site_color="b"))
    ctx.close(shot.points[0][0], np.c_[x, y], "plot_scalar: points of one colour")
    shot = shoot(ctx, lambda: vis().plot_vector(x, y, u, v, arrow_color="b"))
    q = [c for c in shot.ax.collections if type(c).__name__ == "Quiver"][0]
    ctx.close(np.c_[q.X, q.Y, q.U, q.V], np.c_[x, y, u, v], "plot_vector: arrows of one colour")
    for fn, what in ((lambda **kw: vis().plot_scalar(x, y, z, scatter=True, **kw), "plot_scalar"),
                     (lambda **kw: vis().plot_vector(x, y, u, v, **kw), "plot_vector")):
        hits = []
        shoot(ctx, lambda: fn(beautifier=lambda: hits.append(len(plt.gcf().axes))))
        ctx.equal(hits, [1], f"{what}: calls of the beautifier")
        path = os.path.join(ctx.workdir(), "v.png")
        fn(fig_name=path, fig_dpi=20)
        ctx.true(os.path.getsize(path) > 0, f"{what}: figure file")
        os.remove(path)
        ctx.equal(len(plt.get_fignums()), 0, "figures left open")
    ctx.state("vis", i)
    ctx.step(8)
    ctx.trace(i)


def do_G(ctx, ny):
    """Interpolated images: a linear function is reproduced exactly, pixel by pixel."""
    rng = [(i, j) for i in range(4) for j in range(5)]
    x = np.array([0.3 * i + 0.05 * j for i, j in rng] + [0.0, 1.1, 0.0, 1.1])
    y = np.array([0.2 * j for i, j in rng] + [0.0, 0.0, 0.8, 0.8])
    keep = sorted({(round(a, 9), round(b, 9)): k for k, (a, b) in enumerate(zip(x, y))}.values())
    x, y = x[keep], y[keep]
    for nx in (2, 3, 5, 7):
        for a, b, c in ((1, 0, 0), (0, 1, 0), (2, -3, 0.5)):
            z = a * x + b * y + c
            shot = shoot(ctx, lambda: vis().plot_scalar(x, y, z, num_grid=(nx, ny)))
            im = shot.ax.get_images()
            ctx.equal(len(im), 1, "images")
            arr = np.ma.filled(im[0].get_array(), np.nan)
            ext = im[0].get_extent()
            ctx.close(ext, (x.min(), x.max(), y.min(), y.max()), "extent of the image")
            gx, gy = np.linspace(x.min(), x.max(), nx), np.linspace(y.min(), y.max(), ny)
            want = a * gx[None, :] + b * gy[:, None] + c
            if im[0].origin != "lower":
                want = want[::-1]
            ctx.equal(np.shape(arr), (ny, nx), f"image of {nx} x {ny} points")
            ok = np.isfinite(arr)
            ctx.true(ok.sum() >= ok.size - 4, "most of the image is defined")
            ctx.close(np.where(ok, arr, want), want, f"image of {a}x+{b}y+{c} on {nx} x {ny} points", 1e-6)
            ctx.state("img", nx, ny, a, b, c)
            ctx.step()
    ctx.trace(ny)


def cases(tier):
    for i in range(7):
        for v in VIEWS:
            for cut in (1e-5, 0.0, 0.01):
                yield ["M", i, v, cut]
    for i in range(5):
        for v in (VIEWS if tier == "thorough" or i == 2 else ["ab", "ca"]):
            for cut in (1e-5, 0.01):
                yield ["N", i, v, cut]
    for n in range(1, 5):
        for m in range(1, 4):
            yield ["X", n, m]
    for n, m in ((60, 3), (7, 20), (150, 11)):
        yield ["X", n, m]
    for g in range(5):
        yield ["D", g]
    for i in range(9):
        yield ["V", i]
    for ny in (2, 3, 4, 6):
        yield ["G", ny]
    for n in range(1, 6 if tier == "thorough" else 5):
        for l in range(min(n, 4)):
            for m in range(-l, l + 1):
                for z in (1, 2, 6):
                    for g in range(3):
                        yield ["A", z, n, l, m, g]
    for i in range(3):
        for k in ((0, 0, 0), (0.5, 0, 0), (0.3, -0.2, 0.4), (0, 0.25, 0), (0.1, 0.9, -1.3)):
            for c in (1, 2):
                yield ["B", i, k, c]
    for i in range(4):
        yield ["C", i]


def run(case, ctx):
    try:
        globals()["do_" + case[0]](ctx, *case[1:])
    finally:
        plt.close("all")
