"""The reference models.  Plain and slow on purpose; nothing here uses tbplas."""
import itertools
import math

import numpy as np

ANG = 0.1
NM = 1.0


def canon_key(rn, i, j):
    """Canonical name of a hopping term; True if the conjugate was taken."""
    a = (tuple(int(x) for x in rn), int(i), int(j))
    b = (tuple(-int(x) for x in rn), int(j), int(i))
    return (a, False) if a >= b else (b, True)


class RefError(Exception):
    pass


class Cell:
    """Reference primitive cell: a list of orbitals and a map of terms."""

    def __init__(self, lat, origin=(0., 0., 0.), unit=ANG):
        self.lat = np.array(lat, float) * unit
        self.origin = np.array(origin, float) * unit
        self.orbs = []          # (pos tuple, energy, label)
        self.hops = {}          # canonical key -> complex
        self.extended = 1.0

    def clone(self):
        c = Cell(self.lat, self.origin, 1.0)
        c.orbs = list(self.orbs)
        c.hops = dict(self.hops)
        c.extended = self.extended
        return c

    # ---- conversions
    def frac(self, cart):
        return np.linalg.solve(self.lat.T, np.array(cart, float) - self.origin)

    def cart(self, frac):
        return np.array(frac, float) @ self.lat + self.origin

    # ---- edits (arguments are assumed valid unless a check says otherwise)
    def add_orbital(self, pos, energy=0.0, label="X"):
        pos = tuple(float(x) for x in pos)
        if len(pos) == 2:
            pos += (0.0,)
        self.orbs.append((pos, float(energy), label))

    def add_orbital_cart(self, pos, unit=ANG, **kw):
        pos = tuple(pos) + (0.0,) * (3 - len(pos))
        self.add_orbital(self.frac(np.array(pos) * unit), **kw)

    def set_orbital(self, i, position=None, energy=None, label=None):
        p, e, l = self.orbs[i]
        if position is not None:
            p = tuple(float(x) for x in position)
            p += (0.0,) * (3 - len(p))
        self.orbs[i] = (p, e if energy is None else float(energy),
                        l if label is None else label)

    def set_orbital_cart(self, i, position=None, unit=ANG, **kw):
        if position is not None:
            position = tuple(position) + (0.0,) * (3 - len(position))
            position = self.frac(np.array(position) * unit)
        self.set_orbital(i, position, **kw)

    def remove_orbitals(self, idx):
        idx = set(int(x) for x in idx)
        keep = [i for i in range(len(self.orbs)) if i not in idx]
        new = {o: n for n, o in enumerate(keep)}
        self.orbs = [self.orbs[i] for i in keep]
        hops = {}
        for (rn, i, j), e in self.hops.items():
            if i in new and j in new:
                k, c = canon_key(rn, new[i], new[j])
                hops[k] = e.conjugate() if c else e
        self.hops = hops

    def add_hopping(self, rn, i, j, e):
        rn = tuple(rn) + (0,) * (3 - len(rn))
        k, c = canon_key(rn, i, j)
        e = complex(e)
        self.hops[k] = e.conjugate() if c else e

    def get_hopping(self, rn, i, j):
        rn = tuple(rn) + (0,) * (3 - len(rn))
        k, c = canon_key(rn, i, j)
        if k not in self.hops:
            return None
        e = self.hops[k]
        return e.conjugate() if c else e

    def remove_hopping(self, rn, i, j):
        rn = tuple(rn) + (0,) * (3 - len(rn))
        del self.hops[canon_key(rn, i, j)[0]]

    def trim(self):
        n = [0] * len(self.orbs)
        for (rn, i, j) in self.hops:
            n[i] += 1
            n[j] += 1
        self.remove_orbitals([i for i, c in enumerate(n) if c <= 1])

    def apply_pbc(self, pbc):
        self.hops = {k: e for k, e in self.hops.items()
                     if all(p or r == 0 for p, r in zip(pbc, k[0]))}

    def reset_lattice(self, lat=None, origin=None, unit=ANG, fix_orb=True):
        carts = [self.cart(o[0]) for o in self.orbs]
        if lat is not None:
            self.lat = np.array(lat, float) * unit
        if origin is not None:
            self.origin = np.array(origin, float) * unit
        if fix_orb:
            self.orbs = [(tuple(self.frac(c)), o[1], o[2])
                         for c, o in zip(carts, self.orbs)]

    # ---- views
    @property
    def n(self):
        return len(self.orbs)

    def pos(self):
        return np.array([o[0] for o in self.orbs], float).reshape(-1, 3)

    def eng(self):
        return np.array([o[1] for o in self.orbs], float)

    def pos_nm(self):
        return np.array([self.cart(o[0]) for o in self.orbs], float).reshape(-1, 3)

    def ham(self, k, convention=1, phase_gauge=None):
        """The Fourier sum."""
        n = self.n
        h = np.diag(self.eng().astype(complex)) if n else np.zeros((0, 0), complex)
        p = self.pos()
        k = np.array(k, float)
        for (rn, i, j), e in self.hops.items():
            d = np.array(rn, float)
            if convention == 1:
                d = d + p[j] - p[i]
            f = e * np.exp(2j * math.pi * float(k @ d))
            h[i, j] += f
            h[j, i] += f.conjugate()
        return h

    def eig(self, k):
        return np.linalg.eigvalsh(self.ham(k, 2))

    def key(self):
        return (tuple(np.round(self.lat, 9).ravel()), tuple(np.round(self.origin, 9)),
                tuple((tuple(round(x, 9) for x in o[0]), o[1], o[2]) for o in self.orbs),
                tuple(sorted((k, (round(e.real, 9), round(e.imag, 9)))
                             for k, e in self.hops.items())))


def check_cell(ctx, c, r, k_points=((0.13, -0.27, 0.41),), deep=True, what="cell"):
    """Compare every public view of the implementation cell c with reference r."""
    n = r.n
    ctx.equal(c.num_orb, n, f"{what}.num_orb")
    ctx.equal(len(c.orbitals), n, f"{what} len(orbitals)")
    ctx.equal(c.num_hop, len(r.hops), f"{what}.num_hop")
    ctx.close(c.lat_vec, r.lat, f"{what}.lat_vec", 1e-9)
    ctx.close(c.origin, r.origin, f"{what}.origin", 1e-9)
    ctx.close(c.extended, r.extended, f"{what}.extended", 1e-9)
    for i, (p, e, l) in enumerate(r.orbs):
        o = c.get_orbital(i)
        ctx.close(o.position, p, f"{what} position of orbital {i}", 1e-9)
        ctx.close(o.energy, e, f"{what} energy of orbital {i}", 1e-12)
        ctx.equal(o.label, l, f"{what} label of orbital {i}")
    if n:
        ctx.close(c.orb_pos, r.pos(), f"{what}.orb_pos", 1e-9)
        ctx.close(c.orb_eng, r.eng(), f"{what}.orb_eng", 1e-12)
        ctx.close(c.orb_pos_nm, r.pos_nm(), f"{what}.orb_pos_nm", 1e-9)
        ctx.close(c.orb_pos_ang, r.pos_nm() * 10, f"{what}.orb_pos_ang", 1e-9)
    else:
        ctx.equal(np.asarray(c.orb_pos).size, 0, f"{what}.orb_pos of an empty cell")
        ctx.equal(np.asarray(c.orb_eng).size, 0, f"{what}.orb_eng of an empty cell")
    ind, eng = np.asarray(c.hop_ind), np.asarray(c.hop_eng)
    ctx.equal(eng.shape, (len(r.hops),), f"{what}.hop_eng shape")
    got = {}
    if len(r.hops):
        ctx.equal(ind.shape, (len(r.hops), 5), f"{what}.hop_ind shape")
        ctx.equal(ind.dtype.kind, "i", f"{what}.hop_ind type")
        for row, e in zip(ind, eng):
            k, cj = canon_key(row[:3], row[3], row[4])
            ctx.true(k not in got, lambda: f"{what}: term {k} (or its conjugate) reported twice")
            got[k] = complex(e).conjugate() if cj else complex(e)
    else:
        ctx.equal(ind.size, 0, f"{what}.hop_ind without terms")
    ctx.equal(set(got), set(r.hops), f"{what} set of hopping terms")
    for k, e in r.hops.items():
        ctx.close(got[k], e, f"{what} amplitude of term {k}", 1e-10)
    got2 = {}
    for rn, d in c.hoppings.items():
        for (i, j), e in d.items():
            k, cj = canon_key(rn, i, j)
            ctx.true(k not in got2, lambda: f"{what}: term {k} stored twice")
            got2[k] = complex(e).conjugate() if cj else complex(e)
    ctx.equal(got2, got, f"{what} hoppings mapping versus arrays")
    if len(r.hops):
        p, pn = r.pos(), r.pos_nm()
        want = np.array([p[row[4]] + row[:3] - p[row[3]] for row in ind])
        ctx.close(c.dr, want, f"{what}.dr", 1e-8)
        ctx.close(c.dr_nm, want @ r.lat, f"{what}.dr_nm", 1e-8)
        ctx.close(c.dr_ang, want @ r.lat * 10, f"{what}.dr_ang", 1e-8)
    if not deep:
        return
    rns = {k[0] for k in r.hops} | {(0, 0, 0), (1, 0, 0), (0, 1, -1)}
    for rn in rns:
        for i in range(n):
            for j in range(n):
                if rn == (0, 0, 0) and i == j:
                    continue
                for s in (1, -1):
                    q = tuple(s * x for x in rn)
                    a, b = (i, j) if s == 1 else (j, i)
                    w = r.get_hopping(q, a, b)
                    try:
                        g = c.get_hopping(q, a, b)
                    except Exception:
                        g = None
                    ctx.true((g is None) == (w is None) and (w is None or abs(g - w) < 1e-10),
                             lambda: f"{what}.get_hopping({q},{a},{b}): got {g}, want {w}")
    if n and r.hops:
        for k in k_points:
            for conv in (1, 2):
                h = np.zeros((n, n), complex)
                c.set_ham_dense(np.array(k, float), h, conv)
                ctx.close(h, r.ham(k, conv), f"{what} Hamiltonian at {k} convention {conv}", 1e-9)


def build_cell(tb, r, unit=1.0):
    """An implementation cell equal to the reference cell."""
    c = tb.PrimitiveCell(r.lat, r.origin, unit=unit)
    for p, e, l in r.orbs:
        c.add_orbital(p, energy=e, label=l)
    for (rn, i, j), e in r.hops.items():
        c.add_hopping(rn, i, j, e)
    c.extended = r.extended
    return c


def fold(r, dim, k):
    """Eigenvalues of the dim-fold super cell at its k from the primitive cell."""
    ev = []
    for m in itertools.product(*[range(d) for d in dim]):
        kk = [(k[a] + m[a]) / dim[a] for a in range(3)]
        ev.extend(r.eig(kk))
    return np.sort(np.array(ev))


def posmod(name):
    """Position modifiers by name (work in place, on (n, 3) arrays in nm)."""
    def bend(p):
        p[:, 2] += 0.1 * p[:, 0] ** 2 - 0.05 * p[:, 1]

    def shift(p):
        p[:] = p + np.array([0.01, -0.02, 0.03]) * (1 + p)
    return {None: None, "bend": bend, "shift": shift}[name]


class SC:
    """Reference super cell."""

    def __init__(self, cell, dim, pbc=(0, 0, 0), vac=(), mod=None):
        self.cell = cell
        self.dim = tuple(int(x) for x in dim) + (1,) * (3 - len(dim))
        self.pbc = tuple(int(bool(x)) for x in pbc) + (0,) * (3 - len(pbc))
        self.vac = set(tuple(int(y) for y in x) for x in vac)
        self.mods = {}
        self.mod = mod

    def clone(self):
        s = SC(self.cell.clone(), self.dim, self.pbc, self.vac, self.mod)
        s.mods = dict(self.mods)
        return s

    def ids(self):
        return [q for q in itertools.product(range(self.dim[0]), range(self.dim[1]),
                                             range(self.dim[2]), range(self.cell.n))
                if q not in self.vac]

    @property
    def n(self):
        return len(self.ids())

    @property
    def lat(self):
        return self.cell.lat * np.array(self.dim)[:, None]

    def eng(self):
        return np.array([self.cell.orbs[q[3]][1] for q in self.ids()], float)

    def pos(self):
        p = np.array([self.cell.cart(np.array(self.cell.orbs[q[3]][0]) + q[:3])
                      for q in self.ids()], float).reshape(-1, 3)
        f = posmod(self.mod)
        if f is not None and len(p):
            f(p)
        return p

    def add_hopping(self, rn, i, j, e):
        rn = tuple(rn) + (0,) * (3 - len(rn))
        k, c = canon_key(rn, i, j)
        e = complex(e)
        self.mods[k] = e.conjugate() if c else e

    def hops(self):
        """List of (rn of super cell, i, j, v)."""
        num = {q: i for i, q in enumerate(self.ids())}
        out = {}
        for q, i in num.items():
            for (rn, a, b), e in self.cell.hops.items():
                if q[3] != a:
                    continue
                ket, sh, ok = [], [], True
                for d in range(3):
                    x = q[d] + rn[d]
                    s, m = divmod(x, self.dim[d])
                    if s != 0 and not self.pbc[d]:
                        ok = False
                    ket.append(m)
                    sh.append(s)
                t = tuple(ket) + (b,)
                if not ok or t not in num:
                    continue
                k, c = canon_key(sh, i, num[t])
                assert k not in out
                out[k] = e.conjugate() if c else e
        # modifications
        base = {}
        for (rn, i, j) in out:
            base.setdefault(frozenset((i, j)), []).append((rn, i, j))
        for (rn, i, j), e in self.mods.items():
            old = base.get(frozenset((i, j)))
            if old and len(set((i, j))) == 2:
                for o in old:
                    out.pop(o, None)
                base[frozenset((i, j))] = [(rn, i, j)]
            out[(rn, i, j)] = e
        return out

    def terms(self):
        """(i, j, v, dr) with i <= j, sorted."""
        p = self.pos()
        return [(i, j, v, p[j] + np.array(rn) @ self.lat - p[i])
                for (rn, i, j), v in self.hops().items()]

    def trim(self):
        n = self.n
        cnt = [0] * n
        for (_, i, j) in self.hops():
            cnt[i] += 1
            cnt[j] += 1
        ids = self.ids()
        drop = [i for i in range(n) if cnt[i] <= 1]
        keep = [i for i in range(n) if cnt[i] > 1]
        new = {o: k for k, o in enumerate(keep)}
        self.vac |= {ids[i] for i in drop}
        mods = {}
        for (rn, i, j), e in self.mods.items():
            if i in new and j in new:
                k, c = canon_key(rn, new[i], new[j])
                mods[k] = e.conjugate() if c else e
        self.mods = mods

    def key(self):
        return (self.cell.key(), self.dim, self.pbc, tuple(sorted(self.vac)),
                tuple(self.mods.items()), self.mod)


def build_sc(tb, c, s):
    """An implementation super cell on implementation cell c equal to s."""
    sc = tb.SuperCell(c, s.dim, pbc=tuple(bool(x) for x in s.pbc),
                      vacancies=sorted(s.vac) if s.vac else None,
                      orb_pos_modifier=posmod(s.mod))
    for (rn, i, j), e in s.mods.items():
        sc.add_hopping(rn, i, j, e)
    return sc


def sort_terms(i, j, v, dr):
    """Terms in canonical order and orientation: comparable arrays."""
    out = []
    for a, b, x, d in zip(i, j, v, dr):
        a, b, x = int(a), int(b), complex(x)
        d = np.array(d, float)
        r = tuple(np.round(d, 6) + 0.0)
        m = tuple(np.round(-d, 6) + 0.0)
        if (a, b, r) > (b, a, m):
            a, b, x, d, r = b, a, x.conjugate(), -d, m
        out.append((a, b, r, x, d))
    out.sort(key=lambda t: t[:3])
    return out


def check_terms(ctx, got, want, what, tol=1e-8):
    """got, want: (i, j, v, dr) sequences; equal as sets of Hermitian terms."""
    g = sort_terms(*got)
    w = sort_terms(*want)
    ctx.equal([t[:2] for t in g], [t[:2] for t in w], f"{what}: pairs")
    # equal pairs: match by distance within the group
    used = [False] * len(w)
    by = {}
    for n, t in enumerate(w):
        by.setdefault(t[:2], []).append(n)
    for t in g:
        best = None
        for n in by[t[:2]]:
            if used[n]:
                continue
            e = w[n]
            d = max(abs(e[3] - t[3]), float(np.max(np.abs(e[4] - t[4]))))
            if t[0] == t[1]:
                d = min(d, max(abs(e[3].conjugate() - t[3]),
                               float(np.max(np.abs(e[4] + t[4])))))
            if best is None or d < best[0]:
                best = (d, n)
        ctx.true(best is not None and best[0] <= tol,
                 lambda: f"{what}: term {t[0]},{t[1]} amplitude {t[3]} distance "
                         f"{t[4].tolist()} is not among the expected "
                         f"{[(w[n][3], w[n][4].tolist()) for n in by[t[:2]]]}")
        used[best[1]] = True


def unzip(ts):
    ts = list(ts)
    return ([t[0] for t in ts], [t[1] for t in ts], [t[2] for t in ts], [t[3] for t in ts])


def check_sc(ctx, sc, s, what="super cell", ids=True):
    """Compare every public view of super cell sc with reference s."""
    n = s.n
    ctx.equal(sc.num_orb_sc, n, f"{what}.num_orb_sc")
    ctx.equal(sc.num_orb_pc, s.cell.n, f"{what}.num_orb_pc")
    ctx.equal(sc.num_vac, len(s.vac), f"{what}.num_vac")
    ctx.close(sc.sc_lat_vec, s.lat, f"{what}.sc_lat_vec", 1e-9)
    ctx.close(sc.pc_lat_vec, s.cell.lat, f"{what}.pc_lat_vec", 1e-9)
    if n:
        ctx.close(sc.get_orb_eng(), s.eng(), f"{what}.get_orb_eng", 1e-12)
        ctx.close(sc.get_orb_pos(), s.pos(), f"{what}.get_orb_pos", 1e-9)
    if ids and n:
        q = np.array(s.ids(), dtype=np.int32).reshape(-1, 4)
        ctx.equal(np.asarray(sc.orb_id_sc2pc_array(np.arange(n))).tolist(), q.tolist(),
                  f"{what}.orb_id_sc2pc_array")
        ctx.equal(np.asarray(sc.orb_id_pc2sc_array(q)).tolist(), list(range(n)),
                  f"{what}.orb_id_pc2sc_array")
    got = sc.get_hop()
    ctx.equal([np.asarray(x).dtype.kind for x in got], ["i", "i", "c", "f"], f"{what}.get_hop types")
    check_terms(ctx, got, unzip(s.terms()), f"{what}.get_hop")


class Smp:
    """Reference sample: super cells and connections [(bra, ket, {(rn,i,j): e})]."""

    def __init__(self, scs, inter=()):
        self.scs = list(scs)
        self.inter = list(inter)

    @property
    def start(self):
        return [sum(s.n for s in self.scs[:i]) for i in range(len(self.scs))]

    @property
    def n(self):
        return sum(s.n for s in self.scs)

    def eng(self):
        return np.concatenate([s.eng() for s in self.scs])

    def pos(self):
        return np.concatenate([s.pos() for s in self.scs])

    def terms(self):
        out = []
        st = self.start
        for o, s in zip(st, self.scs):
            out += [(i + o, j + o, v, d) for i, j, v, d in s.terms()]
        for b, k, t in self.inter:
            pb, pk, lat = self.scs[b].pos(), self.scs[k].pos(), self.scs[k].lat
            for (rn, i, j), e in t.items():
                out.append((i + st[b], j + st[k], complex(e),
                            pk[j] + np.array(rn) @ lat - pb[i]))
        return out

    def ham(self, k=(0, 0, 0), phase=None):
        """Dense Hamiltonian at fractional k; phase(i, j, dr) multiplies terms."""
        rec = 2 * math.pi * np.linalg.inv(self.scs[0].lat).T
        kc = np.array(k, float) @ rec
        return ham_of(self.eng(), self.terms(), kc, phase)


def ham_of(eng, terms, kc=(0, 0, 0), phase=None):
    n = len(eng)
    h = np.diag(np.asarray(eng, complex))
    for i, j, v, d in terms:
        v = v * np.exp(1j * float(np.dot(kc, d)))
        if phase is not None:
            v = v * phase(i, j, d)
        h[i, j] += v
        h[j, i] += np.conj(v)
    return h


def build_sample(tb, scs, m):
    """Implementation sample on implementation super cells scs equal to m."""
    args = list(scs)
    for b, k, t in m.inter:
        h = tb.SCInterHopping(scs[b], scs[k])
        for (rn, i, j), e in t.items():
            h.add_hopping(rn, i, j, e)
        args.append(h)
    return tb.Sample(*args)


def check_sample(ctx, smp, m, what="sample", rescale=1.0, ks=((0, 0, 0), (0.21, -0.37, 0.11)),
                 phase=None):
    """Every view of sample smp against reference m (physical operator)."""
    ctx.equal(smp.num_orb, m.n, f"{what}.num_orb")
    terms = m.terms()
    ctx.equal(smp.num_hop, len(terms), f"{what}.num_hop")
    smp.init_orb_eng()
    smp.init_orb_pos()
    smp.init_hop()
    ctx.close(smp.rescale, rescale, f"{what}.rescale", 1e-9)
    ctx.close(np.asarray(smp.orb_eng) * rescale, m.eng(), f"{what}.orb_eng", 1e-9)
    ctx.close(smp.orb_pos, m.pos(), f"{what}.orb_pos", 1e-9)
    if phase is not None:
        terms = [(i, j, v * phase(i, j, d), d) for i, j, v, d in terms]
    check_terms(ctx, (smp.hop_i, smp.hop_j, np.asarray(smp.hop_v) * rescale, smp.dr),
                unzip(terms), f"{what} hopping")
    for k in ks:
        want = m.ham(k, phase)
        h = np.zeros((m.n, m.n), complex)
        smp.set_ham_dense(np.array(k, float), h)
        ctx.close(h, want, f"{what}.set_ham_dense at {k}", 1e-8)
        ctx.close(smp.set_ham_csr(np.array(k, float)).toarray(), want,
                  f"{what}.set_ham_csr at {k}", 1e-8)
    ctx.close(smp.build_ham_csr().toarray() * rescale, m.ham((0, 0, 0), phase),
              f"{what}.build_ham_csr", 1e-8)
