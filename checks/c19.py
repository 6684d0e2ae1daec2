"""C19: synthetic Wannier90 file sets, complete over finite choices, against the Hamiltonian the files define."""
import itertools
import os

import numpy as np
import tbplas as tb

from lib import ref

CHUNK = 8
BOHR = 0.529177210671212    # tolerance below absorbs the revision of the constant
BOUNDS = {"quick": "all Hermitian 1- and 2-orbital models over R = 0, +-R1 with entries from {0, a real value, a complex value, a value below the cutoff} "
                   "x 4 cutoffs; numbers of grid points 1, 3, 13, 15, 17, 29, 31, 45 x 3 degeneracy patterns x 1..3 orbitals; "
                   "all translation corrections with up to 2 vectors from 4 for each pair of a 2-orbital model; all orders of 3 grid points x all subsets of 4 pairs listed in the file of corrections; 12 and 23 orbitals, 101 grid points; all layouts of the .win and .xyz files "
                   "from 6 unit spellings x 4 surroundings x 3 indents x 3 ion lists x 2 ways of naming the files; the shipped examples",
          "thorough": "as quick with entries from 5 values, corrections with up to 3 vectors and 2-orbital models over +-R1, +-R2",
          "assumptions": ["files describe Hermitian Hamiltonians, as Wannier90 writes them",
                          "the cutoff applies to the amplitude after degeneracies and corrections"]}
LAT = {"hex": [[2.46, 0., 0.], [-1.23, 2.13, 0.], [0., 0., 15.]], "tri": [[3., 0.2, -0.1], [0.4, 2.5, 0.3], [-0.2, 0.6, 4.]]}
CEN = [[-0.58, 0.33, -0.02], [1.2, 0.7, 0.6], [0.0, 2.5, -3.75]]
R1 = [(1, 0, 0), (0, -2, 0), (1, -1, 3), (-3, 2, 1), (12, -11, 10), (0, 0, -105)]
KS = ((0., 0., 0.), (0.13, -0.27, 0.41), (0.5, 1 / 3, -0.25))


class Files:
    """What the files say, and the text of them."""

    def __init__(self, lat=LAT["hex"], unit="ang", cen=CEN[:1], grid=((0, 0, 0),), degen=(1,), ham=None, ws=None,
                 surround=0, indent="", ions=0, name="wannier90", part=False):
        self.__dict__.update(locals())

    def write(self, d):
        base = os.path.join(d, self.name)
        if os.path.dirname(base) != d:
            os.makedirs(os.path.dirname(base), exist_ok=True)
        i = self.indent
        cell = [i + "begin unit_cell_cart"] + ([] if self.unit is None else [i + self.unit]) \
            + [i + "  " + "  ".join(f"{x:.15f}" for x in v) for v in self.lat] + [i + "end unit_cell_cart"]
        atoms = ["begin atoms_frac", "   C  0.0  0.0  0.0", "   C  0.6  0.3  0.0", "end atoms_frac"]
        head = ["num_wann = %d" % len(self.cen), "num_bands = 20", "dis_win_max = 1.0d0", ""]
        tail = ["", "mp_grid = 12 12 1", "", "begin kpoints", "0.0 0.0 0.0", "0.5 0.0 0.0", "end kpoints"]
        t = [cell, head + cell + [""] + atoms + tail, head + atoms + tail + cell, head + tail + atoms + [""] + cell + ["", ""]][self.surround]
        with open(base + ".win", "w") as f:
            f.write("\n".join(t) + "\n")
        ion = [[], [("C", (0., 0., 0.)), ("C", (1.2, 0.7, 0.))], [("Xe", (0.1, 0.2, 0.3)), ("S", (0., 1., 2.)), ("Mo", (1., 1., 1.))]][self.ions]
        with open(base + "_centres.xyz", "w") as f:
            f.write("%5d\n Wannier centres, written by Wannier90 on18Nov2020 at 17:20:51 \n" % (len(self.cen) + len(ion)))
            for p in self.cen:
                f.write("X         " + "   ".join("%14.8f" % x for x in p) + "\n")
            for n, p in ion:
                f.write("%-2s        " % n + "   ".join("%14.8f" % x for x in p) + "\n")
        n = len(self.cen)
        with open(base + "_hr.dat", "w") as f:
            f.write(" written on 18Nov2020 at 17:20:51 \n%12d\n%12d\n" % (n, len(self.grid)))
            for k in range(0, len(self.degen), 15):
                f.write("".join("%5d" % x for x in self.degen[k:k + 15]) + "\n")
            for r in self.grid:
                for b in range(n):
                    for a in range(n):
                        e = complex(self.ham.get((r, a, b), 0))
                        f.write("%5d%5d%5d%5d%5d%16.10f%16.10f\n" % (*r, a + 1, b + 1, e.real, e.imag))
        if self.ws is not None:
            with open(base + "_wsvec.dat", "w") as f:
                f.write("## written on 18Nov2020 at 17:20:51  with use_ws_distance=.true.\n")
                for r in (self.grid[::-1] if self.part else self.grid):
                    for a in range(n):
                        for b in range(n):
                            if self.part and (r, a, b) not in self.ws:
                                continue    # a pair which is not listed is not corrected
                            v = self.ws.get((r, a, b), [(0, 0, 0)])
                            f.write("%5d%5d%5d%5d%5d\n%5d\n" % (*r, a + 1, b + 1, len(v)))
                            for x in v:
                                f.write("%5d%5d%5d\n" % x)
        return base

    def terms(self, correct):
        """H_ab(R) defined by the files."""
        t = {}
        for r, g in zip(self.grid, self.degen):
            n = len(self.cen)
            for a in range(n):
                for b in range(n):
                    e = complex(self.ham.get((r, a, b), 0)) / g
                    v = self.ws.get((r, a, b), [(0, 0, 0)]) if correct else [(0, 0, 0)]
                    for x in v:
                        k = (tuple(p + q for p, q in zip(r, x)), a, b)
                        t[k] = t.get(k, 0) + e / len(v)
        return t

    def cell(self, cutoff, correct):
        u = 0.1 * BOHR if self.unit in ("bohr", "Bohr") else 0.1
        r = ref.Cell(self.lat, unit=u)
        t = self.terms(correct)
        for a, p in enumerate(self.cen):
            e = t.get(((0, 0, 0), a, a), 0).real
            r.add_orbital(r.frac(np.array(p) * 0.1), e if abs(e) >= cutoff else 0.0)
        for (rn, a, b), e in t.items():
            if (rn != (0, 0, 0) or a != b) and abs(e) >= cutoff:
                r.add_hopping(rn, a, b, e)
        return r

    def key(self):
        return repr((self.lat, self.unit, self.cen, self.grid, self.degen, sorted(self.ham.items()), self.ws, self.surround, self.indent, self.ions, self.name))


def herm(h):
    """Complete a set of independent entries."""
    out = dict(h)
    for (r, a, b), e in h.items():
        out[(tuple(-x for x in r), b, a)] = complex(e).conjugate()
    return out


def neg(r):
    return tuple(-x for x in r)


def judge(ctx, f, cutoff=None, correct=False, ks=KS[1:2], deep=False):
    d = ctx.workdir()
    base = f.write(d)
    kw = {}
    if cutoff is not None:
        kw["hop_eng_cutoff"] = cutoff
    if correct:
        kw["correct_hop"] = True
    before = {n: open(os.path.join(os.path.dirname(base), n)).read() for n in os.listdir(os.path.dirname(base))
              if n.startswith(os.path.basename(base))}
    old = os.getcwd()
    os.chdir(d)
    try:
        if f.name == "wannier90":
            c = tb.wan2pc(**kw)
        else:
            c = tb.wan2pc(f.name if "/" in f.name else base, **kw)
    finally:
        os.chdir(old)
    for n, t in before.items():
        ctx.true(open(os.path.join(os.path.dirname(base), n)).read() == t, lambda: f"{n} was altered")
    cut = 1e-5 if cutoff is None else cutoff
    r = f.cell(cut, correct)
    what = f"import of {f.key()[:400]} cutoff {cutoff} correct {correct}"
    # terms whose size is the cutoff within rounding may go either way: not generated here
    check(ctx, c, r, f, correct, ks, deep, what)
    ctx.step(1)
    ctx.state(f.key(), cutoff, correct)
    for n in list(before):
        os.remove(os.path.join(os.path.dirname(base), n))
    return c


def check(ctx, c, r, f, correct, ks, deep, what):
    ctx.close(c.lat_vec, r.lat, what + ": lattice", 1e-7)
    ctx.close(c.origin, [0, 0, 0], what + ": origin", 1e-12)
    ctx.equal(c.num_orb, r.n, what + ": orbitals")
    ctx.close(c.orb_pos_nm, r.pos_nm(), what + ": positions", 1e-7)
    ctx.close(c.orb_pos, r.pos(), what + ": fractional positions", 1e-6)
    ctx.close([o.energy for o in c.orbitals], r.eng(), what + ": energies", 1e-9)
    ctx.close(c.orb_eng, r.eng(), what + ": energies", 1e-9)
    got = {}
    for row, e in zip(np.asarray(c.hop_ind), np.asarray(c.hop_eng)):
        k, cj = ref.canon_key(row[:3], row[3], row[4])
        ctx.true(k not in got, lambda: f"{what}: term {k} twice")
        got[k] = complex(e).conjugate() if cj else complex(e)
    # terms of zero amplitude are immaterial when the cutoff admits them
    ctx.equal({k for k, e in got.items() if e != 0}, {k for k, e in r.hops.items() if e != 0}, what + ": set of terms")
    for k, e in r.hops.items():
        if e != 0:
            ctx.close(got[k], e, f"{what}: amplitude of {k}", 1e-9)
    n = r.n
    for k in ks:
        for conv in (1, 2):
            h = np.zeros((n, n), complex)
            if len(got):
                c.set_ham_dense(np.array(k, float), h, conv)
                ctx.close(h, r.ham(k, conv), f"{what}: Hamiltonian at {k} convention {conv}", 1e-6)


def cases(tier):
    for u in itertools.product(range(2), range(6)):
        yield ["one", *u]
    n = 4 if tier == "quick" else 5
    for e0, e1, r1 in itertools.product(range(3), range(3), range(3)):
        yield ["two", e0, e1, r1, n]
    for ng in (1, 3, 13, 15, 17, 29, 31, 45):
        for p in range(3):
            yield ["grid", ng, p]
    m = 2 if tier == "quick" else 3
    for i in range(len(vecs(m))):
        yield ["ws", i, m]
    yield ["ws0"]
    for i in range(6):
        yield ["order", i]
    yield ["many"]
    for u in range(6):
        for s in range(4):
            yield ["lay", u, s]
    yield ["bad"]
    for e in ("graphene", "inse", "mos2"):
        yield ["example", e]


def run(case, ctx):
    globals()["do_" + case[0]](ctx, *case[1:])


VAL = [0, 1.25, -0.5 + 0.25j, 4e-6 - 3e-6j, 0.0011j]
CUTS = [None, 0.0, 1e-3, 0.6]


def do_one(ctx, lat, r1):
    r = R1[r1]
    for e0 in (0, -1.5, 2e-6, 0.25):
        for e1 in VAL:
            for e2 in VAL:
                for cut in CUTS:
                    f = Files(LAT["tri" if lat else "hex"], cen=[CEN[2]], grid=(neg(r), (0, 0, 0), r), degen=(1, 1, 1),
                              ham=herm({((0, 0, 0), 0, 0): e0, (r, 0, 0): e1}))
                    judge(ctx, f, cut, ks=KS)
                    g = (neg(r), neg(R1[r1 - 1]), (0, 0, 0), R1[r1 - 1], r)
                    f = Files(LAT["hex"], cen=[CEN[0]], grid=g, degen=(2, 1, 1, 1, 2),
                              ham=herm({((0, 0, 0), 0, 0): e0, (r, 0, 0): e1, (R1[r1 - 1], 0, 0): e2}))
                    judge(ctx, f, cut)
    ctx.trace(f"1 orbital, R={r}")


def do_two(ctx, e0, e1, r1, nv):
    r = R1[r1]
    on = (0.7, 0, -0.3)
    for v in itertools.product(VAL[:nv], repeat=5):
        h = {((0, 0, 0), 0, 0): on[e0], ((0, 0, 0), 1, 1): on[e1], ((0, 0, 0), 0, 1): v[0]}
        for (a, b), x in zip(itertools.product((0, 1), repeat=2), v[1:]):
            h[(r, a, b)] = x
        f = Files(cen=CEN[:2], grid=(neg(r), (0, 0, 0), r), degen=(1, 1, 1), ham=herm(h))
        judge(ctx, f, CUTS[(VAL.index(v[0]) + VAL.index(v[2]) + e1) % 4] if v[4] else None)
    ctx.trace(f"2 orbitals, R={r}")


def gridpts(n):
    half = []
    for r in itertools.product(range(0, 4), range(-3, 4), range(-1, 2)):
        if r > (0, 0, 0):
            half.append(r)
    half = half[:: max(1, len(half) // 30)][: (n - 1) // 2]
    return [neg(r) for r in reversed(half)] + [(0, 0, 0)] + half


def do_grid(ctx, ng, p):
    g = gridpts(ng)
    assert len(g) == ng, (len(g), ng)
    h2 = ng // 2
    d = {0: lambda i: 1, 1: lambda i: 1 + i % 4, 2: lambda i: 12 if i == h2 else 1 + (i * i) % 3}[p]
    degen = [d(abs(i - h2)) for i in range(ng)]
    for n in (1, 2, 3):
        h = {}
        for t, r in enumerate(g[h2:]):
            for a in range(n):
                for b in range(n):
                    if r == (0, 0, 0) and b < a:
                        continue
                    e = 0.1 * (t + 1) - 0.37 * a + 0.21 * b
                    if not (r == (0, 0, 0) and a == b):
                        e += 1j * (0.05 * t - 0.3 * a + 0.11 * (b + 1))
                    h[(r, a, b)] = round(e.real, 10) + 1j * round(complex(e).imag, 10)
        f = Files(cen=CEN[:n], grid=tuple(g), degen=tuple(degen), ham=herm(h), surround=1, ions=1)
        for cut in (None, 0.0, 0.33):
            t = [abs(e) for e in f.terms(False).values()]
            if cut and any(abs(x - cut) < 1e-9 for x in t):
                continue
            judge(ctx, f, cut, ks=KS)
    ctx.trace(f"{ng} grid points, degeneracies {degen}")


def vecs(m):
    v = [(0, 0, 0), (2, 0, 0), (-1, 0, 0), (0, 0, -1)]
    out = []
    for k in range(1, m + 1):
        out += list(itertools.combinations(v, k))
    return out


def do_ws(ctx, i, m):
    """Corrections of a 2-orbital model: the pair (0, 1) at R1 and, independently, the others."""
    r = (1, 0, 0)
    vs = vecs(m)
    h = {((0, 0, 0), 0, 0): 0.4, ((0, 0, 0), 1, 1): -0.9, ((0, 0, 0), 0, 1): 0.3 + 0.2j, (r, 0, 0): -0.7 + 0.1j, (r, 1, 1): 0.25,
         (r, 0, 1): 0.5 - 0.35j, (r, 1, 0): -0.15j}
    for j, k in itertools.product(range(len(vs)), repeat=2):
        ws = {(r, 0, 1): vs[i], (r, 1, 0): vs[j], (r, 0, 0): vs[k], (r, 1, 1): vs[(i + j + k) % len(vs)], ((0, 0, 0), 0, 1): vs[(i + 2 * j) % len(vs)]}
        full = dict(ws)
        for (rr, a, b), v in ws.items():
            full[(neg(rr), b, a)] = [neg(x) for x in v]
        f = Files(cen=CEN[:2], grid=(neg(r), (0, 0, 0), r), degen=(2, 1, 2), ham=herm(h), ws={q: list(v) for q, v in full.items()})
        judge(ctx, f, None, True, ks=KS[:2])
        t = [abs(e) for e in f.terms(True).values()]
        if all(abs(x - 0.07) > 1e-9 for x in t):
            judge(ctx, f, 0.07, True)
        if j == 0:
            judge(ctx, f, None, False)
    ctx.trace(f"corrections {vs[i]}")


def do_ws0(ctx):
    """Corrections which bring terms back to the home cell, cancel, or pile up."""
    r, q = (1, 0, 0), (0, 1, 0)
    g = (neg(r), neg(q), (0, 0, 0), q, r)
    for e1, e2, e3 in itertools.product((0.5, -0.25, 0.3j), repeat=3):
        for v1, v2 in itertools.product([[(0, 0, 0)], [(-1, 0, 0)], [(0, 0, 0), (-1, 1, 0)], [(-1, 1, 0)], [(0, 0, 0), (-1, 0, 0), (3, 0, 0)]],
                                        [[(0, 0, 0)], [(0, -1, 0)], [(1, -1, 0)], [(0, 0, 0), (1, -1, 0)]]):
            h = herm({((0, 0, 0), 0, 0): 0.2, ((0, 0, 0), 1, 1): 0.0, ((0, 0, 0), 0, 1): e3, (r, 0, 1): e1, (q, 0, 1): e2, (q, 1, 1): 0.125})
            ws = {(r, 0, 1): v1, (q, 0, 1): v2, (neg(r), 1, 0): [neg(x) for x in v1], (neg(q), 1, 0): [neg(x) for x in v2]}
            judge(ctx, Files(cen=CEN[:2], grid=g, degen=(1, 1, 1, 1, 1), ham=h, ws=ws), None, True, ks=KS)
    ctx.trace("corrections which meet")


def do_order(ctx, i):
    """Grid points in every order, with corrections listed for some of the pairs, in another order than the terms."""
    r = (1, 0, 0)
    g = list(itertools.permutations((neg(r), (0, 0, 0), r)))[i]
    dg = {r: 2, neg(r): 2, (0, 0, 0): 3}
    h = herm({((0, 0, 0), 0, 0): 0.4, ((0, 0, 0), 1, 1): -0.9, ((0, 0, 0), 0, 1): 0.3 + 0.2j, (r, 0, 0): -0.7 + 0.1j, (r, 1, 1): 0.25,
              (r, 0, 1): 0.5 - 0.35j, (r, 1, 0): -0.15j})
    ent = [(r, 0, 0), (r, 0, 1), (r, 1, 0), ((0, 0, 0), 0, 1)]
    vs = vecs(2)[1::2]
    for m in range(16):
        ws = {}
        for j, k in enumerate(ent):
            if m >> j & 1:
                ws[k] = list(vs[(i + j + m) % len(vs)])
                ws[(neg(k[0]), k[2], k[1])] = [neg(x) for x in ws[k]]
        f = Files(cen=CEN[:2], grid=g, degen=tuple(dg[x] for x in g), ham=h, ws=ws, part=True)
        judge(ctx, f, None, True, ks=KS)
        judge(ctx, f, None, False, ks=KS)
    ctx.trace(f"order {g}")


def do_many(ctx):
    """Models with two-digit numbers of orbitals and 101 grid points."""
    for n, ng, gs in ((12, 5, 1), (23, 3, 1), (2, 101, 2)):
        half = [(x, y, 0) for x in range(0, 8) for y in range(-7, 8) if (x, y) > (0, 0)][:ng // 2]
        g = [neg(x) for x in reversed(half)] + [(0, 0, 0)] + half
        h = {}
        for t, r in enumerate(g[ng // 2:]):
            for a in range(n):
                for b in range(n):
                    if r == (0, 0, 0) and b < a:
                        continue
                    e = round(0.01 * (t + 1) - 0.037 * a + 0.021 * b, 10)
                    if not (r == (0, 0, 0) and a == b):
                        e += 1j * round(0.05 * t - 0.03 * a + 0.011 * (b + 1), 10)
                    h[(r, a, b)] = e
        cen = [[0.37 * a - 1.0, 0.21 * (a % 5), 0.1 * (a % 3) - 0.3 * a] for a in range(n)]
        f = Files(LAT["tri"], cen=cen, grid=tuple(g), degen=tuple(1 + (abs(i - ng // 2) % gs) for i in range(ng)), ham=herm(h), surround=2, ions=2)
        judge(ctx, f, 0.0, ks=KS)
    ctx.trace("large models")


def do_lay(ctx, u, s):
    unit = [None, "ang", "Ang", "bohr", "Bohr", "ang  "][u]
    r = (1, 0, 0)
    h = herm({((0, 0, 0), 0, 0): 0.4, ((0, 0, 0), 0, 1): 0.3 + 0.2j, (r, 0, 1): 0.5 - 0.35j})
    for ind, ions, name, lat in itertools.product(("", "  ", "\t "), range(3), ("wannier90", "gra", "sub/mos2"), LAT):
        judge(ctx, Files(LAT[lat], unit=unit, cen=CEN[:2], grid=(neg(r), (0, 0, 0), r), degen=(1, 1, 1), ham=h, surround=s, indent=ind, ions=ions,
                         name=name), ks=KS)
    ctx.trace(f"layouts with unit {unit}")


def do_bad(ctx):
    d = ctx.workdir()
    for unit in ("nm", "ANGS", "a"):
        f = Files(unit=unit, ham={}, name="bad")
        base = f.write(d)
        ctx.raises(lambda: tb.wan2pc(base), f"unit {unit}", ValueError)
    f = Files(ham=herm({((0, 0, 0), 0, 0): 0.5}), name="now")
    base = f.write(d)
    ctx.raises(lambda: tb.wan2pc(base, correct_hop=True), "corrections without the file", FileNotFoundError)
    ctx.close(tb.wan2pc(base).orb_eng, [0.5], "after the refusal", 1e-12)
    for ext in (".win", "_centres.xyz", "_hr.dat"):
        base = f.write(d)
        os.remove(base + ext)
        ctx.raises(lambda: tb.wan2pc(base), f"missing {ext}", FileNotFoundError)
    ctx.step(7)
    ctx.state("bad")
    ctx.trace("refusals")


def parse(base):
    """Independent reading of real Wannier90 output."""
    win = [x.split() for x in open(base + ".win")]
    i = [k for k, x in enumerate(win) if [y.lower() for y in x[:2]] == ["begin", "unit_cell_cart"]][0]
    unit = None if len(win[i + 1]) == 3 else win[i + 1][0]
    o = i + (1 if unit is None else 2)
    lat = [[float(x) for x in win[o + k]] for k in range(3)]
    xyz = [x.split() for x in open(base + "_centres.xyz")][2:]
    cen = [[float(y) for y in x[1:4]] for x in xyz if x and x[0] == "X"]
    tok = open(base + "_hr.dat").read().split("\n", 1)[1].split()
    n, m = int(tok[0]), int(tok[1])
    degen = [int(x) for x in tok[2:2 + m]]
    rows = tok[2 + m:]
    ham, grid = {}, []
    for k in range(0, len(rows), 7):
        r = tuple(int(x) for x in rows[k:k + 3])
        if not grid or grid[-1] != r:
            grid.append(r)
        ham[(r, int(rows[k + 3]) - 1, int(rows[k + 4]) - 1)] = complex(float(rows[k + 5]), float(rows[k + 6]))
    ws = None
    if os.path.exists(base + "_wsvec.dat"):
        tok = [int(x) for x in open(base + "_wsvec.dat").read().split("\n", 1)[1].split()]
        ws, k = {}, 0
        while k < len(tok):
            key = (tuple(tok[k:k + 3]), tok[k + 3] - 1, tok[k + 4] - 1)
            c = tok[k + 5]
            ws[key] = [tuple(tok[k + 6 + 3 * q:k + 9 + 3 * q]) for q in range(c)]
            k += 6 + 3 * c
    assert len(grid) == m and len(degen) == m and len(cen) == n
    return Files(lat, unit, cen, tuple(grid), tuple(degen), ham, ws)


def do_example(ctx, name):
    from lib import build
    base = os.path.join(build.REPO, "examples", "interface", "wannier90", name, name)
    if not os.path.exists(base + "_hr.dat"):
        ctx.trace("example absent")
        return
    f = parse(base)
    for correct in ((False, True) if f.ws is not None else (False,)):
        for cut in (1e-5, 1e-2):
            c = tb.wan2pc(base, correct_hop=correct, hop_eng_cutoff=cut)
            t = f.terms(correct)
            got = {}
            for row, e in zip(np.asarray(c.hop_ind), np.asarray(c.hop_eng)):
                got[(tuple(int(x) for x in row[:3]), int(row[3]), int(row[4]))] = complex(e)
                got[(tuple(-int(x) for x in row[:3]), int(row[4]), int(row[3]))] = complex(e).conjugate()
            for a, e in enumerate(c.orb_eng):
                got[((0, 0, 0), a, a)] = complex(e)
            for k, e in t.items():
                if abs(e) > cut + 3e-6:     # files are rounded to 6 digits
                    ctx.true(k in got and abs(got[k] - e) < 3e-6, lambda: f"{name}: term {k}: got {got.get(k)}, want {e}")
                elif abs(e) < cut - 3e-6:
                    # the conjugate partner of a term at the cutoff may differ by rounding
                    ctx.true(k not in got or got[k] == 0, lambda: f"{name}: term {k} of {e} below the cutoff {cut} kept as {got.get(k)}")
            ctx.true(all(k in t for k in got), f"{name}: terms which are not in the files")
            u = 0.1 * BOHR if f.unit in ("bohr", "Bohr") else 0.1
            ctx.close(c.lat_vec, np.array(f.lat) * u, name + " lattice", 1e-7)
            ctx.close(c.orb_pos_nm, np.array(f.cen) * 0.1, name + " positions", 1e-7)
            ctx.step(1)
            ctx.state("example", name, correct, cut)
    ctx.trace("example " + name)
