"""C16: response functions against direct sums over eigenstates of the reference Hamiltonian."""
import itertools
import math

import numpy as np
import tbplas as tb

from lib import ref

CHUNK = 4
EPS0 = 0.6944615417149689      # documented in lindhard.py
KB = 8.617333262e-5
BOUNDS = {"quick": "7 models (1 to 4 orbitals, complex hoppings, degenerate bands, left-handed and triclinic lattices, shifted origin) x 2 "
                   "dimensions x 9 k-meshes x 4 chemical potentials x 3 temperatures x degeneracy, broadening, background, extension "
                   "(cycled) x 2 back ends; all grid momenta from -1 to the mesh size; 5 free momenta; all 9 conductivity components; "
                   "6 cases with up to 9 orbitals, 576 k-points and 61 frequencies; all call sequences with model edits up to 3 steps",
          "thorough": "as quick with the full product of the cycled parameters and 14 k-meshes",
          "assumptions": ["transitions within a degenerate level (< 1e-7 eV) do not contribute to the AC conductivity (as implemented, in all back ends)",
                          "2d formulas are used with the c axis along z only (documented)"]}


def models():
    out = {}
    hexa = [[0.246, 0, 0], [0.123, 0.213, 0], [0, 0, 1.0]]
    r = ref.Cell([[0.3, 0, 0], [0, 0.4, 0], [0, 0, 0.5]], unit=1.0)
    r.add_orbital((0.2, 0.1, 0.3), 0.3)
    r.add_hopping((1, 0, 0), 0, 0, -0.8 + 0.3j)
    r.add_hopping((1, 1, 0), 0, 0, 0.2j)
    out["one"] = r
    r = ref.Cell(hexa, unit=1.0)
    r.add_orbital((1 / 3, 1 / 3, 0), 0.0)
    r.add_orbital((2 / 3, 2 / 3, 0), 0.0)
    for rn in ((0, 0, 0), (1, 0, 0), (0, 1, 0)):
        r.add_hopping(rn, 1, 0, -2.7)
    out["graphene"] = r
    r = ref.Cell(hexa, (0.03, -0.05, 0.2), unit=1.0)
    for p, e in (((0.1, 0.2, 0.3), 0.4), ((0.6, 0.25, -0.2), -0.7), ((0.4, 0.9, 0.1), 0.1)):
        r.add_orbital(p, e)
    for h in (((0, 0, 0), 0, 1, 1 + 0.5j), ((1, 0, 0), 1, 0, -0.6j), ((0, 1, 0), 2, 0, 0.4), ((1, -1, 0), 1, 2, 0.3 - 0.2j),
              ((1, 0, 0), 0, 0, 0.25j), ((0, 1, 0), 2, 2, -0.15)):
        r.add_hopping(*h)
    r.extended = 4.0
    out["complex"] = r
    r = ref.Cell([[0.1, 0.3, 0], [0.35, -0.05, 0], [0, 0, 0.7]], (0.1, 0, 0), unit=1.0)
    r.add_orbital((0, 0, 0), -0.3)
    r.add_orbital((0.5, 0.4, 0.5), 0.6)
    for h in (((0, 0, 0), 0, 1, 0.9), ((1, 0, 0), 0, 1, 0.5j), ((0, 1, 0), 0, 0, 0.4 + 0.1j), ((0, 1, 1), 0, 1, 0.3), ((0, 0, 1), 1, 1, -0.2j)):
        r.add_hopping(*h)
    out["left"] = r
    r = ref.Cell(hexa, unit=1.0)
    for i in range(4):
        r.add_orbital(((1 / 3, 1 / 3, 0), (2 / 3, 2 / 3, 0))[i // 2], (0.3, -0.3)[i // 2])
    for s in (0, 1):
        for rn in ((0, 0, 0), (1, 0, 0), (0, 1, 0)):
            r.add_hopping(rn, 2 + s, s, -1.5)
    r.extended = 2.0
    out["spin"] = r
    r = ref.Cell([[0.3, 0.05, 0.1], [-0.08, 0.28, 0.06], [0.02, 0.07, 0.33]], (0.0, 0.1, -0.1), unit=1.0)
    r.add_orbital((0.1, 0.0, 0.2), 0.2)
    r.add_orbital((0.5, 0.6, 0.7), -0.1)
    for h in (((0, 0, 0), 0, 1, 0.7), ((1, 0, 0), 0, 1, -0.4), ((0, 1, 0), 1, 0, 0.6j), ((0, 0, 1), 0, 1, 0.5 + 0.2j), ((0, 0, 1), 0, 0, 0.3j), ((0, 1, -1), 1, 1, 0.1)):
        r.add_hopping(*h)
    out["triclinic"] = r
    r = ref.Cell([[0.3, 0, 0], [0, 0.3, 0], [0, 0, 0.3]], unit=1.0)
    r.add_orbital((0, 0, 0), 0.5)
    r.add_orbital((0.5, 0.5, 0), -0.5)
    r.add_hopping((0, 0, 0), 0, 1, 0.2)
    r.extended = 3.0
    out["dimer"] = r
    r = ref.Cell([[0.5, 0, 0], [0.1, 0.6, 0], [0, 0, 1.0]], (0.1, 0, 0), unit=1.0)
    for i in range(9):
        r.add_orbital(((0.37 * i) % 1.0, (0.61 * i * i) % 1.0, 0.05 * i), 0.3 * ((i * 5) % 7) - 0.8)
    for q in range(40):
        rn, i, j = (q % 3 - 1, (q // 3) % 3 - 1, 0), (q * 4 + q // 9) % 9, (q * 7 + 2 * (q // 9)) % 9
        if i != j or rn != (0, 0, 0):
            r.add_hopping(rn, i, j, 0.1 * (q % 11) - 0.4 + 0.07j * (q % 5))
    out["large"] = r
    return out


M = models()
MESH2 = [(1, 1, 1), (2, 1, 1), (1, 3, 1), (2, 3, 1), (3, 2, 1), (3, 3, 1), (4, 2, 1), (1, 4, 1), (5, 1, 1)]
MESH3 = [(1, 1, 1), (1, 1, 3), (2, 1, 1), (2, 2, 2), (2, 1, 3), (3, 2, 1), (1, 3, 2), (2, 3, 2), (1, 4, 1)]
MORE = [(4, 4, 1), (6, 1, 1), (2, 5, 1), (5, 3, 1), (7, 2, 1)]
MUS = [-0.7, 0.0, 0.15, 1.3]
TEMPS = [20.0, 300.0, 4000.0]
GRID = [(0.0, 5.0, 5), (0.3, 2.0, 3), (-1.0, 1.0, 4), (0.5, 0.5, 0), (2.0, 7.0, 1)]
CYC = [(1, 0.005, 1.0), (2, 0.05, 2.5), (1, 0.2, 0.7), (4, 0.01, 11.0)]


def cases(tier):
    i = 0
    yield ["C"]
    yield ["B"]
    for m, mesh, dim, f in (("large", (12, 10, 1), 2, False), ("large", (3, 4, 5), 3, True), ("graphene", (24, 24, 1), 2, True),
                            ("complex", (21, 1, 1), 3, False), ("left", (2, 36, 1), 2, False), ("large", (1, 1, 1), 3, True)):
        yield ["P", m, dim, list(mesh), 0.15, 300.0, [0.0, 6.0, 60], [2, 0.02, 1.5], 6 + f]
    for m in M:
        if m == "large":
            continue
        for dim in (2, 3):
            if dim == 2 and m == "triclinic":
                continue
            meshes = (MESH2 if dim == 2 else MESH3) + (MORE if tier == "thorough" else [])
            for mesh in meshes:
                for mu in MUS:
                    for t in TEMPS:
                        if tier == "quick":
                            yield ["P", m, dim, list(mesh), mu, t, list(GRID[i % 5]), list(CYC[i % 4])]
                        else:
                            for c in CYC:
                                yield ["P", m, dim, list(mesh), mu, t, list(GRID[i % 5]), list(c)]
                        i += 1
    for m in ("one", "graphene", "complex", "triclinic"):
        for seq in itertools.product(range(len(EDITS)), repeat=2):
            yield ["H", m, list(seq)]


def build(r):
    c = ref.build_cell(tb, r)
    return c


def fermi(e, mu, beta):
    return 0.5 * (1 - np.tanh(0.5 * beta * (e - mu)))


class Ref:
    def __init__(self, r, mesh, w, mu, t, gs, eps, dim, delta):
        self.r, self.mesh, self.w, self.mu, self.beta = r, mesh, w, mu, 1 / (KB * t)
        self.gs, self.eps, self.dim, self.delta = gs, eps, dim, delta
        self.ks = [np.array([i / mesh[0], j / mesh[1], l / mesh[2]]) for i in range(mesh[0]) for j in range(mesh[1]) for l in range(mesh[2])]
        self.recip = 2 * np.pi * np.linalg.inv(r.lat).T
        if dim == 2:
            a, b = r.lat[0], r.lat[1]
            size = abs(a[0] * b[1] - a[1] * b[0])
        else:
            size = abs(np.linalg.det(r.lat))
        self.pre = gs / (size * len(self.ks)) / r.extended
        self.cache = {}

    def eig(self, k):
        key = tuple(np.round(k, 12))
        if key not in self.cache:
            self.cache[key] = np.linalg.eigh(self.r.ham(k, 1))
        return self.cache[key]

    def dp(self, qf):
        """q in fractional coordinates."""
        out = np.zeros(len(self.w), complex)
        for k in self.ks:
            e0, s0 = self.eig(k)
            e1, s1 = self.eig(k + qf)
            o = np.abs(s1.conj().T @ s0) ** 2            # [l, j]
            df = fermi(e0, self.mu, self.beta)[None, :] - fermi(e1, self.mu, self.beta)[:, None]
            de = e0[None, :] - e1[:, None]
            for i, w in enumerate(self.w):
                out[i] += np.sum(o * df / (de + w + 1j * self.delta))
        return out * self.pre

    def vel(self, k, d):
        """dH/dk along Cartesian d (convention 1)."""
        n = self.r.n
        v = np.zeros((n, n), complex)
        p = self.r.pos()
        for (rn, i, j), e in self.r.hops.items():
            fr = np.array(rn, float) + p[j] - p[i]
            x = (fr @ self.r.lat)[d]
            f = 1j * x * e * np.exp(2j * np.pi * float(k @ fr))
            v[i, j] += f
            v[j, i] += f.conjugate()
        return v

    def ac(self, comp):
        a, b = ("xyz".index(x) for x in comp)
        out = np.zeros(len(self.w), complex)
        for k in self.ks:
            e, s = self.eig(k)
            va = s.conj().T @ self.vel(k, a) @ s
            vb = s.conj().T @ self.vel(k, b) @ s
            f = fermi(e, self.mu, self.beta)
            for m in range(len(e)):
                for n in range(len(e)):
                    d = e[m] - e[n]
                    if abs(d) < 1e-7:
                        continue
                    out += va[n, m] * vb[m, n] * (f[m] - f[n]) / d / (d - self.w - 1j * self.delta)
        return out * self.pre * 1j

    def epsilon(self, q, dp):
        q = float(np.linalg.norm(q))
        v = 2 * np.pi / q if self.dim == 2 else 4 * np.pi / q ** 2
        return 1 - v / (EPS0 * self.eps) * dp


def make(c, R, e0, e1, ne, t, mesh):
    return tb.Lindhard(c, mesh, energy_min=e0, energy_max=e1, energy_step=ne, mu=R.mu, temperature=t, g_s=R.gs,
                       back_epsilon=R.eps, dimension=R.dim, delta=R.delta)


def run(case, ctx):
    globals()["do_" + case[0]](ctx, *case[1:])


COMPS = [a + b for a in "xyz" for b in "xyz"]


def gridq(mesh, m):
    """All grid momenta from -1 to the mesh size along each axis, plus far ones."""
    q = list(itertools.product(*[range(-1, n + 1) if n > 1 else (0, 1) for n in mesh]))
    return q + [(-7, 2, 0), (11, -5, 3)]


def do_P(ctx, m, dim, mesh, mu, t, grid, cyc, few=None):
    r = M[m]
    c = build(r)
    gs, delta, eps = cyc
    w = np.array([grid[0] + (grid[1] - grid[0]) * i / max(grid[2], 1) for i in range(grid[2] + 1)])
    R = Ref(r, mesh, w, mu, t, gs, eps, dim, delta)
    what = f"{m} dim={dim} mesh={mesh} mu={mu} T={t}"
    L = make(c, R, *grid, t, tuple(mesh))
    qs = gridq(mesh, m)
    if dim == 2:
        qs = [q for q in qs if q[2] == 0] + [(1, 0, 1)]
    # a bounded number of momenta per case, all of them over the cases of a mesh
    j = int(round((mu + 1) * 100 + t)) % 3
    qs = qs[j::3] if len(qs) > 8 else qs
    if few is not None:
        qs = qs[::max(1, len(qs) // few)]
    qs = np.array(qs, dtype=np.int64)
    want = np.array([R.dp(q / np.array(mesh)) for q in qs])
    qc = np.array([(q / np.array(mesh)) @ R.recip for q in qs])
    ctx.close(L.grid2cart(qs), qc, what + " grid2cart", 1e-9)
    free = np.array([[0.7, 0.1, 0.0], [-1.9, 3.3, 0.4 if dim == 3 else 0.0], [25.0, -40.0, 0.0]])
    wfree = np.array([R.dp(np.linalg.solve(R.recip.T, q)) for q in free])
    sc = max(R.pre * 1e-2, float(np.abs(want).max()), float(np.abs(wfree).max()))
    keep = qs.copy()
    for f in (True, False):
        b = " fortran" if f else " cython"
        om, got = L.calc_dyn_pol_regular(qs, use_fortran=f)
        ctx.close(om, w, what + " frequencies", 1e-12)
        ctx.close(got, want, what + b + " regular", 1e-8, sc)
        om, got2 = L.calc_dyn_pol_arbitrary(qc[:4], use_fortran=f)
        ctx.close(om, w, what + " frequencies", 1e-12)
        ctx.close(got2, want[:4], what + b + " arbitrary on the grid", 1e-8, sc)
        om, got2 = L.calc_dyn_pol_arbitrary(free, use_fortran=f)
        ctx.close(got2, wfree, what + b + " arbitrary", 1e-8, sc)
        nz = [i for i in range(len(qs)) if np.linalg.norm(qc[i]) > 1e-9]
        if nz:
            k2 = got.copy()
            ctx.close(L.calc_epsilon(qc[nz], got[nz]), [R.epsilon(qc[i], want[i]) for i in nz], what + b + " epsilon", 1e-8,
                      max(1.0, max(np.abs(R.epsilon(qc[i], want[i])).max() for i in nz)))
            ctx.true(np.array_equal(k2, got), "calc_epsilon altered the polarization")
        for comp in (COMPS if f or sum(mesh) < 6 else COMPS[::2]):
            om, ac = L.calc_ac_cond(comp, use_fortran=f)
            wac = cached(R, comp)
            s = max(R.pre * 1e-3, float(np.abs(wac).max()))
            ctx.close(om, w, what + " frequencies", 1e-12)
            ctx.close(ac, wac, what + b + " ac " + comp, 1e-7, s)
            ctx.step()
        if dim == 3 and np.all(np.abs(w) > 1e-9):
            ctx.close(L.calc_epsilon_q0(om, ac), 1 + 4j * np.pi / (EPS0 * eps) * ac / w, what + b + " epsilon(q=0)", 1e-9,
                      max(1.0, float(np.abs(ac / w).max()) * 20))
        ctx.step(4)
    if dim == 2:
        ctx.raises(lambda: L.calc_epsilon_q0(w, np.zeros(len(w), complex)), "epsilon(q=0) in 2d", ValueError)
    ctx.true(np.array_equal(keep, qs), "momenta were altered")
    ref.check_cell(ctx, c, r, deep=False)
    ctx.state(m, dim, mesh, mu, t, grid, cyc)
    ctx.trace(f"{what} momenta {qs.tolist()[:4]}")


def cached(R, comp):
    k = ("ac", comp)
    if k not in R.cache:
        R.cache[k] = R.ac(comp)
    return R.cache[k]


def do_C(ctx):
    """Momentum conversions."""
    vals = [-2.25, -1, -0.0, 0, 0.25, 0.5, 1, 1.75, 3]
    pts = [list(p) for p in itertools.product(vals, repeat=3)]
    gp = [list(p) for p in itertools.product([-7, -3, -1, 0, 1, 2, 5, 12], repeat=3)]
    for m in M:
        c = build(M[m])
        rec = 2 * np.pi * np.linalg.inv(M[m].lat).T
        for mesh in ((1, 1, 1), (2, 3, 4), (5, 1, 6), (48, 50, 2)):
            L = tb.Lindhard(c, mesh)
            for src in (pts, np.array(pts)):
                keep = np.array(src)
                ctx.close(L.wrap_frac(src), keep - np.floor(keep), f"wrap_frac {m}", 1e-12)
                for u in (1.0, 0.1, 2.5):
                    x = L.frac2cart(src, unit=u)
                    ctx.close(x, keep @ rec * u, f"frac2cart {m} unit {u}", 1e-9)
                    ctx.close(L.cart2frac(x, unit=u), keep, f"cart2frac of frac2cart {m} unit {u}", 1e-9)
                    ctx.close(L.cart2frac(src, unit=u), np.linalg.solve(rec.T, keep.T / u).T, f"cart2frac {m} unit {u}", 1e-9)
                ctx.close(L.frac2cart(src), keep @ rec, f"frac2cart {m}", 1e-9)
                ctx.close(L.cart2frac(L.frac2cart(src)), keep, f"cart2frac {m}", 1e-9)
                ctx.true(np.array_equal(np.array(src), keep), "arguments altered")
                ctx.step(10)
            for src in (gp, np.array(gp, dtype=np.int64)):
                keep = np.array(src)
                ctx.equal(L.wrap_grid(src).tolist(), (keep % np.array(mesh)).tolist(), f"wrap_grid {m} {mesh}")
                ctx.close(L.grid2frac(src), keep / np.array(mesh), f"grid2frac {m} {mesh}", 1e-12)
                for u in (1.0, 0.1):
                    ctx.close(L.grid2cart(src, unit=u), keep / np.array(mesh) @ rec * u, f"grid2cart {m} {mesh} unit {u}", 1e-9)
                ctx.true(np.array_equal(np.array(src), keep), "arguments altered")
                ctx.step(4)
            ctx.state("C", m, mesh)
    ctx.trace("conversions")


def do_B(ctx):
    """What must be refused; defaults."""
    c = build(M["graphene"])
    for bad in ((2, 2), (2, 2, 2, 1)):
        ctx.raises(lambda: tb.Lindhard(c, bad), f"mesh {bad}", ValueError)
    for d in (0, 1, 4):
        ctx.raises(lambda: tb.Lindhard(c, (2, 2, 1), dimension=d), f"dimension {d}", ValueError)
    ctx.raises(lambda: tb.Lindhard(c, (2, 2, 2), dimension=2), "2d with a mesh along c", ValueError)
    L = tb.Lindhard(c, (2, 2, 1), energy_step=3)
    for bad in ("", "x", "xw", "XX", "xyz", "aa"):
        ctx.raises(lambda: L.calc_ac_cond(bad), f"component {bad!r}", ValueError)
    r = M["graphene"]
    R = Ref(r, (2, 2, 1), np.linspace(0, 10, 4), 0.0, 300.0, 1, 1.0, 3, 0.005)
    w, dp = L.calc_dyn_pol_regular([[1, 0, 0], [0, 1, 0]])
    want = np.array([R.dp(np.array([0.5, 0, 0])), R.dp(np.array([0, 0.5, 0]))])
    ctx.close(w, R.w, "default frequencies", 1e-12)
    ctx.close(dp, want, "default parameters, momenta as lists", 1e-8, np.abs(want).max())
    q = [[1.0, 2.0, 0.0]]
    w, dp = L.calc_dyn_pol_arbitrary(q)
    want = np.array([R.dp(np.linalg.solve(R.recip.T, q[0]))])
    ctx.close(dp, want, "default parameters, free momenta as lists", 1e-8, np.abs(want).max())
    ctx.close(L.calc_epsilon(q, dp), [R.epsilon(q[0], want[0])], "epsilon, momenta as lists", 1e-8)
    w, ac = L.calc_ac_cond()
    ctx.close(ac, R.ac("xx"), "default component", 1e-8)
    ctx.state("B")
    ctx.trace("defaults and refusals")


def e_orb(c, r):
    c.set_orbital(0, energy=0.77)
    r.set_orbital(0, energy=0.77)


def e_hop(c, r):
    k = sorted(r.hops)[-1]
    c.add_hopping(k[0], k[1], k[2], -0.35 + 0.2j)
    r.add_hopping(k[0], k[1], k[2], -0.35 + 0.2j)


def e_new(c, r):
    c.add_orbital((0.05, 0.45, 0.0), 0.2)
    r.add_orbital((0.05, 0.45, 0.0), 0.2)
    c.add_hopping((0, 1, 0), 0, r.n - 1, 0.6)
    r.add_hopping((0, 1, 0), 0, r.n - 1, 0.6)


def e_pos(c, r):
    p = tuple(x + 0.07 for x in r.orbs[-1][0])
    c.set_orbital(r.n - 1, position=p)
    r.set_orbital(r.n - 1, position=p)


def e_del(c, r):
    if r.n > 1:
        c.remove_orbitals([0])
        r.remove_orbitals([0])


EDITS = [e_orb, e_hop, e_new, e_pos, e_del]


def do_H(ctx, m, seq):
    """Edits of the model between calls of one calculator."""
    for f in (True, False):
        for first in (0, 1, 2, 3):
            r = M[m].clone()
            c = build(r)
            R = Ref(r, (2, 2, 1), np.linspace(0.2, 3, 3), 0.1, 600.0, 1, 1.0, 3, 0.05)
            L = make(c, R, 0.2, 3, 2, 600.0, (2, 2, 1))
            for n, e in enumerate([None] + seq):
                if e is not None:
                    EDITS[e](c, r)
                    R.cache.clear()
                if r.n == 0 or not r.hops:
                    break
                what = f"{m} after {[EDITS[x].__name__ for x in seq[:n]]} first={first}"
                order = [0, 1, 2]
                order = order[first:] + order[:first] if first < 3 else [2, 1, 0]
                for o in order:
                    if o == 0:
                        got = L.calc_dyn_pol_regular(np.array([[1, 0, 0]]), use_fortran=f)[1]
                        want = [R.dp(np.array([0.5, 0, 0]))]
                    elif o == 1:
                        got = L.calc_dyn_pol_arbitrary(np.array([[1.0, 0.5, 0.2]]), use_fortran=f)[1]
                        want = [R.dp(np.linalg.solve(R.recip.T, [1.0, 0.5, 0.2]))]
                    else:
                        got = L.calc_ac_cond("xy", use_fortran=f)[1]
                        want = R.ac("xy")
                    ctx.close(got, want, what + f" quantity {o}", 1e-7, max(1e-3, float(np.abs(want).max())))
                    ctx.step()
                ctx.state("H", m, seq[:n], first, f)
            ctx.trace(f"{m} edits {seq}")
