"""C04: Bloch Hamiltonians, bands, states and DOS of all small models and solver histories."""
import contextlib
import io
import itertools
import warnings
import math
import re

import numpy as np
import scipy.linalg as sla
import tbplas as tb

from lib import ref

LAT = [[1.1, 0.2, 0.05], [-0.3, 0.9, 0.1], [0.15, -0.1, 1.4]]
ORG = (0.2, -0.1, 0.3)
POS = [(0.1, 0.25, 0.0), (0.6, -0.4, 0.35), (0.3, 0.75, -0.15)]
ENG = [[0.0, 0.0, 0.0], [-1.0, 0.5, 2.0]]
RN = [(0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1), (1, -1, 0), (-1, 0, 2), (0, -2, 1)]
AMP = [-1.0, 0.5j, 1.5 - 2.0j]
KS = [(0, 0, 0), (0.5, 0, 0), (0.13, -0.27, 0.41), (-0.7, 1.3, 0.05), (1 / 3, 2 / 3, 0)]


def universe(n, rns=None):
    return [(rn, i, j) for rn in (rns or RN) for i in range(n) for j in range(n)
            if not (rn == (0, 0, 0) and i == j)]


def model(n, eng, terms, pos=POS):
    r = ref.Cell(LAT, ORG, 1.0)
    for i in range(n):
        r.add_orbital(pos[i % len(pos)], ENG[eng][i % 3] + (i // 3) * 0.25)
    for (rn, i, j), a in terms:
        r.add_hopping(tuple(rn), i, j, a)
    return r


def printed(c, conv):
    """The Hamiltonian function which print_hk describes."""
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        c.print_hk(conv)
    txt = buf.getvalue()
    txt = txt[:txt.index("with exp_i")]
    parts = re.split(r"ham\[(\d+), (\d+)\] = ", txt)[1:]
    n = c.num_orb
    code = [(int(parts[i]), int(parts[i + 1]), compile(parts[i + 2].strip(), "hk", "eval"))
            for i in range(0, len(parts), 3)]

    def f(k):
        h = np.full((n, n), np.nan, complex)
        done = set()
        for i, j, e in code:
            assert (i, j) not in done
            done.add((i, j))
            h[i, j] = eval(e, {"ham": h, "ka": k[0], "kb": k[1], "kc": k[2],
                               "exp_i": lambda x: complex(math.cos(2 * math.pi * x),
                                                          math.sin(2 * math.pi * x))})
        h[np.isnan(h)] = 0
        return h
    return f


def check_model(ctx, r, ks=KS):
    c = ref.build_cell(tb, r)
    c.sync_array()
    n = r.n
    ctx.step()
    for conv in (1, 2):
        pf = printed(c, conv)
        for k in ks:
            want = r.ham(k, conv)
            k = np.array(k, float)
            h = np.zeros((n, n), complex)
            c.set_ham_dense(k, h, conv)
            ctx.close(h, want, f"dense H at {k} convention {conv}", 1e-10)
            ctx.close(h, h.conj().T, "dense H not Hermitian", 1e-12)
            ctx.close(c.set_ham_csr(k, conv).toarray(), want, f"sparse H at {k} convention {conv}", 1e-10)
            ctx.close(pf(k), want, f"printed H at {k} convention {conv}", 2e-3)
    kk = np.array(ks, float)
    want = np.array([r.eig(k)[::-1] for k in ks])
    for conv in (1, 2):
        s = tb.DiagSolver(c, echo_details=False)
        res = s.calc_bands(kk, convention=conv)
        ctx.close(res.bands, want, f"bands convention {conv}", 1e-9)
        check_states(ctx, s.calc_states(kk, convention=conv), [r.ham(k, conv) for k in ks])
    kl, b = c.calc_bands(kk, echo_details=False)
    ctx.close(b, want, "cell.calc_bands", 1e-9)
    ctx.close(kl, klen(r.lat, kk), "k_len", 1e-9)
    ctx.trace(f"{n} orbitals {list(r.hops)}")


def klen(lat, ks):
    g = 2 * math.pi * np.linalg.inv(lat).T
    d = [0.0]
    for a, b in zip(ks[:-1], ks[1:]):
        d.append(d[-1] + float(np.linalg.norm((np.array(b) - a) @ g)))
    return d


def check_states(ctx, bs, hams, ss=None):
    bands, states = bs
    for i, h in enumerate(hams):
        s = np.eye(len(h)) if ss is None else ss[i]
        w = sla.eigh(h, s, eigvals_only=True)
        ctx.close(np.sort(bands[i]), w, "energies of calc_states", 1e-9)
        v = states[i].T
        ctx.close(h @ v, s @ v * np.asarray(bands[i])[None, :], "states are not eigenvectors", 1e-8)
        ctx.close(v.conj().T @ s @ v, np.eye(len(h)), "states are not orthonormal", 1e-8)


def basis(kind, x, mu, sg):
    if kind == "Gaussian":
        return np.exp(-(x - mu) ** 2 / (2 * sg * sg)) / (sg * math.sqrt(2 * math.pi))
    return sg / math.pi / ((x - mu) ** 2 + sg * sg)


def ref_dos(hams, energies, sg, kind, g_s, orbs=None):
    d = np.zeros(len(energies))
    cnt = 0
    for h in hams:
        w, v = np.linalg.eigh(h)
        for b in range(len(w)):
            p = 1.0 if orbs is None else float(sum(abs(v[o, b]) ** 2 for o in orbs))
            d += p * basis(kind, energies, w[b], sg)
            cnt += 1
    return d / cnt * g_s


# ------------------------------------------------------------------- histories
class Hist:
    """A solver which lives through changes of its model."""

    def __init__(self, kind):
        self.kind = kind
        self.r = model(3, 1, [(((0, 0, 0), 0, 1), -1.0), (((1, 0, 0), 1, 2), 0.5j), (((0, 1, 0), 0, 0), 0.3),
                              (((0, 0, 1), 2, 0), -0.7)])
        self.c = ref.build_cell(tb, self.r)
        self.ov = None
        if kind == "overlap":
            self.o = ref.Cell(LAT, ORG, 1.0)
            for p, e, l in self.r.orbs:
                self.o.add_orbital(p, 1.0, l)
            self.ov = tb.Overlap(self.c)
            self.ov.add_offsite((0, 0), 0, 1, 0.1)
            self.o.add_hopping((0, 0), 0, 1, 0.1)
        self.scale = 1.0
        if kind == "sample":
            self.s = ref.SC(self.r, (3, 3, 3), (1, 1, 0))
            self.sc = ref.build_sc(tb, self.c, self.s)
            self.m = ref.Smp([self.s])
            self.smp = tb.Sample(self.sc)
            self.solver = tb.DiagSolver(self.smp, echo_details=False)
        else:
            self.solver = tb.DiagSolver(self.c, self.ov, echo_details=False)
        self.ks = np.array([(0.11, 0.23, -0.31), (0.4, -0.05, 0.17)])

    def hams(self, conv=1):
        if self.kind == "sample":
            return [self.m.ham(k) for k in self.ks]
        return [self.r.ham(k, conv) for k in self.ks]

    def ss(self, conv=1):
        return None if self.ov is None else [self.o.ham(k, conv) for k in self.ks]

    # calculations
    def bands(self, ctx, conv=1):
        res = self.solver.calc_bands(self.ks, convention=conv)
        ss = self.ss(conv)
        want = [np.sort(sla.eigh(h, None if ss is None else ss[i], eigvals_only=True))[::-1]
                for i, h in enumerate(self.hams(conv))]
        ctx.close(res.bands, want, f"bands of {self.kind}", 1e-9)
        ctx.close(res.proj, np.ones_like(res.bands), "projection on everything")

    def bands2(self, ctx):
        if self.kind == "sample":
            return False
        self.bands(ctx, 2)

    def states(self, ctx):
        check_states(ctx, self.solver.calc_states(self.ks), self.hams(), self.ss())

    def dos(self, ctx):
        if self.ov is not None:
            return False
        e, d = self.solver.calc_dos(self.ks, e_min=-3.0, e_max=3.0, e_step=0.41, sigma=0.3, g_s=2)
        ctx.close(e, np.linspace(-3, 3, 15), "energies of DOS")
        ctx.close(d, ref_dos(self.hams(), e, 0.3, "Gaussian", 2), "DOS", 1e-9)

    def pdos(self, ctx):
        if self.ov is not None:
            return False
        e, d = self.solver.calc_dos(self.ks, e_min=-3.0, e_max=3.0, e_step=0.41, sigma=0.3,
                                    basis="Lorentzian", orbital_indices=[0, self.r.n - 1])
        ctx.close(d, ref_dos(self.hams(), e, 0.3, "Lorentzian", 1, [0, self.r.n - 1]), "LDOS", 1e-8)

    # changes
    def m_eng(self, ctx):
        if self.kind == "sample":
            self.smp.rescale_ham(4.0 + self.scale)
            self.scale += 1
            return
        e = -2.0 if self.r.orbs[0][1] != -2.0 else -1.0
        self.c.set_orbital(0, energy=e)
        self.r.set_orbital(0, energy=e)

    def m_hop(self, ctx):
        if self.kind == "sample":
            self.c.unlock()
            self.c.add_hopping((0, 0), 0, 1, 2.5j)
            self.r.add_hopping((0, 0), 0, 1, 2.5j)
            self.c.update()
            self.scale = 1
            return
        e = -1.0 if self.r.get_hopping((0, 0), 0, 1) != -1.0 else -2.0
        self.c.add_hopping((0, 0), 0, 1, e)
        self.r.add_hopping((0, 0), 0, 1, e)

    def m_add(self, ctx):
        if self.kind == "sample" or self.r.n > 4:
            return False
        for x in [self.c, self.r] + ([self.ov, self.o] if self.ov is not None else []):
            x.add_orbital((0.9, 0.1, 0.2), 1.0)
        for x in (self.c, self.r):
            x.add_hopping((0, 1), 0, self.r.n - 1, 0.25)

    def m_rm(self, ctx):
        if self.kind == "sample" or self.r.n < 3:
            return False
        i = self.r.n - 1
        self.c.remove_orbital(i)
        self.r.remove_orbitals([i])
        if self.ov is not None:
            self.ov.remove_orbital(i)
            self.o.remove_orbitals([i])

    def m_s(self, ctx):
        if self.ov is None:
            return False
        self.ov.set_onsite(1, 1.25)
        self.o.set_orbital(1, energy=1.25)
        self.ov.add_offsite((0, 1), 1, 0, 0.05j)
        self.o.add_hopping((0, 1), 1, 0, 0.05j)

    def m_pos(self, ctx):
        if self.kind == "sample":
            return False
        p = (0.7, 0.7, 0.1) if self.r.orbs[1][0][0] != 0.7 else (0.2, -0.1, 0.4)
        for x in [self.c, self.r] + ([self.ov, self.o] if self.ov is not None else []):
            x.set_orbital(1, position=p)


CALC = ["bands", "bands2", "states", "dos", "pdos"]
CHG = ["m_eng", "m_hop", "m_add", "m_rm", "m_s", "m_pos"]
KINDS = ["cell", "overlap", "sample"]
BOUNDS = {"quick": "all models with 1 to 3 orbitals and at most 2 terms from 7 cell indices and 3 amplitudes, "
                   "at 5 k-points in both conventions; all histories of 4 calculations and changes of 3 solvers; dense models of 5, 12 and 33 orbitals at 40 k-points",
          "thorough": "the same with at most 3 terms; all histories of 5 operations; dense models up to 64 orbitals"}
CHUNK = 4
LARGE = {"quick": [5, 12, 33], "thorough": [4, 5, 8, 12, 17, 33, 64]}


def large(n):
    pos = [((0.37 * i) % 1.0 - 0.3, (0.61 * i * i) % 1.0, 0.5 * (0.23 * i % 1.0)) for i in range(n)]
    terms = {}
    for q in range(6 * n):
        rn = ((q * 5) % 7 - 3, (q * 3) % 5 - 2, q % 3 - 1) if q % 4 else (0, 0, 0)
        i, j = (q * 7 + q // n) % n, (q * 11 + 3 * (q // n)) % n
        if rn == (0, 0, 0) and i == j:
            continue
        terms[(rn, i, j)] = (0.3 + 0.1 * (q % 13)) * (-1) ** q + 0.05j * (q % 9)
    return model(n, 1, list(terms.items()), pos)


def cases(tier):
    for n in (1, 2, 3):
        u = universe(n)
        for e in range(2):
            for t in range(len(u)):
                yield ["M", n, e, 1, [t]]
                if n < 3 or e == 1:
                    yield ["M", n, e, 2, [t]]
            if tier == "thorough" and n < 3:
                for t in itertools.combinations(range(len(u)), 2):
                    yield ["M", n, e, 3, list(t)]
    for k in KINDS:
        for a in itertools.product(CALC + CHG, repeat=2):
            if a[0] in CHG and a[1] in CHG:
                continue
            yield ["H", k, list(a), 4 if tier == "quick" else 5]
    for n in range(1, 4):
        for m in range(1 << n):
            yield ["D", n, [i for i in range(n) if m >> i & 1]]
    for which in range(6):
        yield ["A", which]
    yield ["F"]
    for m in range(1, 16):
        yield ["O", m]
    for n in LARGE[tier]:
        yield ["L", n]


def run(case, ctx):
    t = case[0]
    if t == "M":
        _, n, e, num, fixed = case
        u = universe(n)
        free = num - len(fixed)
        for rest in itertools.combinations(range(fixed[-1] + 1, len(u)), free):
            idx = list(fixed) + list(rest)
            combos = itertools.product(AMP, repeat=num) if num == 1 or n == 2 else \
                [tuple(AMP[(q + x) % 3] for x in range(num)) for q in range(3 if n < 3 else 1)]
            for amps in combos:
                r = model(n, e, [(u[i], a) for i, a in zip(idx, amps)])
                ctx.state(n, e, tuple(idx), amps)
                check_model(ctx, r, KS if num == 1 else KS[2:4] if n == 2 else KS[2:3])
    elif t == "H":
        _, kind, pre, deep = case

        def rec(seq):
            h = Hist(kind)
            ctx.case = ["H", kind, list(seq), len(seq)]
            for o in seq:
                if getattr(h, o)(ctx) is False:
                    return
                ctx.step()
            ctx.state(kind, tuple(seq))
            ctx.trace(f"{kind} {seq}")
            if len(seq) < deep:
                nxt = CALC + (CHG if len(seq) < deep - 1 else [])
                for o in nxt:
                    rec(seq + [o])
        rec(pre)
    elif t == "D":
        _, n, orbs = case
        u = universe(n)
        r = model(n, 1, [(u[i], AMP[i % 3] * (0.3 + 0.1 * i)) for i in range(0, len(u), 3)])
        c = ref.build_cell(tb, r)
        ks = np.array([(0.11, 0.23, -0.31), (0.4, -0.05, 0.17), (0.07, 0.31, 0.44)])
        hams = [r.ham(k, 2) for k in ks]
        lo, hi = min(np.linalg.eigvalsh(h)[0] for h in hams), max(np.linalg.eigvalsh(h)[-1] for h in hams)
        for kind, g, sg, rng, sub in itertools.product(("Gaussian", "Lorentzian"), (1, 2, 4), (0.05, 0.3),
                                                       ((None, None), (-1.7, 2.2), (None, 1.1), (-0.3, None)),
                                                       (None, list, np.array)):
            step = 0.37
            a = lo if rng[0] is None else rng[0]
            b = hi if rng[1] is None else rng[1]
            if b <= a:
                continue
            q = (b - a) / step
            if abs(q - round(q)) < 1e-6:
                continue
            kw = {} if rng[0] is None else {"e_min": rng[0]}
            if rng[1] is not None:
                kw["e_max"] = rng[1]
            if sub is not None:
                kw["orbital_indices"] = sub(orbs) if sub is list else np.array(orbs, dtype=int)
            for conv in (1, 2):
                e, d = tb.DiagSolver(c, echo_details=False).calc_dos(
                    ks, e_step=step, sigma=sg, basis=kind, g_s=g, convention=conv, **kw)
                ctx.step()
                ctx.close(e, np.linspace(a, b, int(q) + 1), "energy grid", 1e-9)
                ctx.close(d, ref_dos(hams, e, sg, kind, g, None if sub is None else orbs), "DOS", 1e-8)
                e1, d1 = c.calc_dos(ks, echo_details=False, e_step=step, sigma=sg, basis=kind, g_s=g, convention=conv, **kw)
                ctx.close(e1, e, "energy grid from the cell", 1e-12)
                ctx.close(d1, d, "DOS from the cell", 1e-10)
            ctx.state("D", n, tuple(orbs), kind, g, sg, rng, sub is None)
            ctx.trace()
        e, d = c.calc_dos(ks, echo_details=False, e_min=-2.0, e_max=2.0, e_step=0.37)
        ctx.close(d, ref_dos(hams, e, 0.05, "Gaussian", 1), "cell.calc_dos", 1e-8)
        res = tb.DiagSolver(c, echo_details=False).calc_bands(ks, orbital_indices=orbs)
        for i, h in enumerate(hams):
            w, v = np.linalg.eigh(h)
            p = np.array([sum(abs(v[o, x]) ** 2 for o in orbs) for x in range(n)])
            ctx.close(res.proj[i], p[::-1], "projection", 1e-8)
        for conv in (1, 2):
            kl, b = c.calc_bands(ks, echo_details=False, convention=conv, orbital_indices=orbs)
            ctx.close(b, [np.linalg.eigvalsh(h)[::-1] for h in hams], "bands from the cell", 1e-9)
            ctx.close(kl, klen(r.lat, ks), "k_len from the cell", 1e-9)
            for num in range(1, n - 1):
                kl, b = c.calc_bands(ks, echo_details=False, convention=conv, solver="arpack", k=num, which="SA")
                for i, h in enumerate(hams):
                    w = np.linalg.eigvalsh(h)
                    if np.diff(w).min() > 1e-3:         # ARPACK may miss copies of a repeated eigenvalue
                        ctx.close(np.sort(b[i]), w[:num], "sparse bands from the cell", 1e-6)
        ctx.raises(lambda: c.calc_dos(ks, echo_details=False, basis="x"), "illegal basis")
        ctx.raises(lambda: c.calc_bands(ks, echo_details=False, solver="x"), "illegal solver")
        ctx.raises(lambda: tb.DiagSolver(c, echo_details=False).calc_states(ks, solver="x"), "illegal solver of states")
        ctx.raises(lambda: c.calc_bands(ks, echo_details=False, convention=3), "illegal convention")
    elif t == "A":
        # (the extra terms lift the degeneracy: ARPACK does not guarantee to find all copies of a repeated eigenvalue)
        r = model(3, 1, [(((0, 0, 0), 0, 1), -1.0), (((1, 0, 0), 1, 2), 0.5j), (((0, 1, 0), 0, 0), 0.3),
                         (((0, 0, 1), 2, 0), -0.7), (((1, 0, 0), 2, 2), 0.43), (((0, 0, 1), 1, 1), -0.37), (((1, 1, 0), 1, 0), 0.31j)])
        c = ref.build_cell(tb, r)
        s = ref.SC(r, (3, 3, 3), (1, 1, case[1] % 2), [(0, 0, 0, 1)][:case[1] // 2])
        sc = ref.build_sc(tb, c, s)
        smp = tb.Sample(sc)
        m = ref.Smp([s])
        ks = np.array([(0.11, 0.23, -0.31), (0.4, -0.05, 0.17)])
        if case[1] > 3:
            smp.rescale_ham()
        kl, b = smp.calc_bands(ks, echo_details=False)
        want = np.array([np.linalg.eigvalsh(m.ham(k))[::-1] for k in ks])
        ctx.close(b, want, "sample bands", 1e-8)
        ctx.close(kl, klen(s.lat, ks), "k_len of sample", 1e-8)
        if np.abs(np.diff(np.sort(want))).min() < 1e-4 or np.abs(np.diff(np.sort(abs(want)))).min() < 1e-6:
            raise RuntimeError("the spectrum of the reference model is degenerate")
        for which in ("LA", "SA"):
            for num in (3, 5):
                kl, b = smp.calc_bands(ks, echo_details=False, solver="arpack", k=num, which=which)
                ctx.close(b, want[:, :num] if which == "LA" else want[:, -num:], f"arpack {which}", 1e-6)
                ctx.step()
        bs, st = tb.DiagSolver(smp, echo_details=False).calc_states(ks, solver="arpack", k=4, which="LA")
        for i, k in enumerate(ks):
            ctx.close(m.ham(k) @ st[i].T, st[i].T * bs[i][None, :], "arpack states", 1e-6)
        kl, b = smp.calc_bands(ks, echo_details=False, solver="arpack")
        ctx.equal(b.shape, (2, int(m.n * 0.6)), "default number of bands")
        ctx.close(np.sort(abs(b)), np.sort(abs(want))[:, -b.shape[1]:], "default bands are those of largest magnitude", 1e-6)
        sol = tb.DiagSolver(smp, echo_details=False)
        bs, st = sol.calc_states(ks, solver="arpack")
        ctx.equal(st.shape, (2, int(m.n * 0.6), m.n), "default number of states")
        for i, k in enumerate(ks):
            ctx.close(m.ham(k) @ st[i].T, st[i].T * bs[i][None, :], "default arpack states", 1e-6)
        ctx.raises(lambda: sol.calc_states(ks, solver="x"), "illegal solver of states")
        ctx.close(sol.recip_lat_vec, 2 * math.pi * np.linalg.inv(s.lat).T,
                  "reciprocal vectors of the solver", 1e-9)
        e, d = smp.calc_dos(ks, echo_details=False, e_min=-3, e_max=3, e_step=0.23, sigma=0.1)
        ctx.close(d, ref_dos([m.ham(k) for k in ks], e, 0.1, "Gaussian", 1), "sample DOS", 1e-8)
        hams = [m.ham(k) for k in ks]
        for kind, g, sub in itertools.product(("Gaussian", "Lorentzian"), (1, 3), (None, [0, m.n - 1], [m.n // 2])):
            kw = {} if sub is None else {"orbital_indices": sub}
            for solver in (lambda *a, **k: smp.calc_dos(*a, echo_details=False, **k), sol.calc_dos):
                e, d = solver(ks, e_min=-2.5, e_max=3.03, e_step=0.31, sigma=0.17, basis=kind, g_s=g, **kw)
                ctx.close(e, np.linspace(-2.5, 3.03, 18), "energies of the sample", 1e-9)
                ctx.close(d, ref_dos(hams, e, 0.17, kind, g, sub), f"sample DOS, {kind}, orbitals {sub}", 1e-8)
                ctx.step()
        res = sol.calc_bands(ks, orbital_indices=[1, m.n - 2])
        for i, h in enumerate(hams):
            w, v = np.linalg.eigh(h)
            if np.diff(w).min() > 1e-6:
                ctx.close(res.proj[i], (abs(v[1]) ** 2 + abs(v[m.n - 2]) ** 2)[::-1], "projection of the bands of a sample", 1e-8)
        ctx.state("A", case[1])
        ctx.trace(f"sparse solver {case[1]}")
    elif t == "L":
        n = case[1]
        r = large(n)
        ks = [(0.017 * q, 0.3 - 0.031 * q, 0.11 * (q % 5)) for q in range(40)]
        check_model(ctx, r, ks)
        c = ref.build_cell(tb, r)
        hams = [r.ham(k) for k in ks]
        for kind, orbs in itertools.product(("Gaussian", "Lorentzian"), (None, [0, n - 1], list(range(1, n, 2)))):
            kw = {} if orbs is None else {"orbital_indices": orbs}
            for e_min, e_max, step in ((-12.005, 12.0, 0.1), (-1.0, 1.0001, 0.001)):
                e, d = tb.DiagSolver(c, echo_details=False).calc_dos(
                    np.array(ks), e_min=e_min, e_max=e_max, e_step=step, sigma=0.07, basis=kind, **kw)
                ctx.close(e, np.linspace(e_min, e_max, int((e_max - e_min) / step) + 1), "energies", 1e-9)
                ctx.close(d, ref_dos(hams, e, 0.07, kind, 1, orbs), "DOS", 1e-8)
                ctx.step()
        if n < 10:
            s = ref.SC(r, (7, 5, 3), (1, 1, 0))
            m = ref.Smp([s])
            smp = tb.Sample(ref.build_sc(tb, c, s))
            kk = np.array(ks[:3])
            kl, b = smp.calc_bands(kk, echo_details=False)
            ctx.close(b, [np.linalg.eigvalsh(m.ham(k))[::-1] for k in kk], "sample bands", 1e-8)
        ctx.state("L", n)
        ctx.trace(f"{n} orbitals")
    elif t == "F":
        class Fake(tb.FakePC):
            def set_ham_dense(self, k, h, convention=1):
                h[0, 0], h[1, 1] = 1.0, -1.0
                h[0, 1] = np.exp(2j * math.pi * k[0]) + 0.5
                h[1, 0] = h[0, 1].conjugate()

        class FakeO(tb.FakeOverlap):
            def set_overlap_dense(self, k, h, convention=1):
                h[0, 0] = h[1, 1] = 1.0
                h[0, 1] = h[1, 0] = 0.2 * math.cos(2 * math.pi * k[1])
        f = Fake(2, np.array(LAT), unit=1.0)
        ks = np.array(KS, float)
        hs, ss = [], []
        for k in ks:
            h, s = np.zeros((2, 2), complex), np.zeros((2, 2), complex)
            f.set_ham_dense(k, h)
            FakeO(2).set_overlap_dense(k, s)
            hs.append(h)
            ss.append(s)
        b = tb.DiagSolver(f, echo_details=False).calc_bands(ks)
        ctx.close(b.bands, [np.linalg.eigvalsh(h)[::-1] for h in hs], "analytic model")
        ctx.close(b.k_len, klen(np.array(LAT), ks), "k_len of analytic model")
        sol = tb.DiagSolver(f, FakeO(2), echo_details=False)
        ctx.close(sol.calc_bands(ks).bands, [sla.eigvalsh(h, s)[::-1] for h, s in zip(hs, ss)],
                  "analytic model with overlap")
        check_states(ctx, sol.calc_states(ks), hs, ss)
        ctx.close(f.get_reciprocal_vectors(), 2 * math.pi * np.linalg.inv(np.array(LAT)).T, "reciprocal vectors of analytic model", 1e-9)
        ctx.close(sol.recip_lat_vec, 2 * math.pi * np.linalg.inv(np.array(LAT)).T, "reciprocal vectors of analytic model", 1e-9)
        ctx.trace("analytic")
    elif t == "O":
        r = model(3, 1, [(((0, 0, 0), 0, 1), -1.0), (((1, 0, 0), 1, 2), 0.5j), (((0, 1, 0), 0, 0), 0.3)])
        c = ref.build_cell(tb, r)
        ov = tb.Overlap(c)
        o = ref.Cell(LAT, ORG, 1.0)
        for p, e, l in r.orbs:
            o.add_orbital(p, 1.0, l)
        offs = [((0, 0, 0), 0, 1, 0.1), ((1, 0, 0), 1, 2, 0.05j), ((0, 1, 0), 0, 0, 0.07),
                ((0, 0, -1), 2, 1, 0.03 - 0.02j)]
        for i, x in enumerate(offs):
            if case[1] >> i & 1:
                ov.add_offsite(*x)
                o.add_hopping(*x)
        ov.set_onsite(2, 1.5)
        o.set_orbital(2, energy=1.5)
        if case[1] % 2:
            ov.set_onsite(0, 0.9)
            o.set_orbital(0, energy=0.9)
        ks = np.array(KS, float)
        for conv in (1, 2):
            hs, ss = [r.ham(k, conv) for k in ks], [o.ham(k, conv) for k in ks]
            sol = tb.DiagSolver(c, ov, echo_details=False)
            want = np.array([sla.eigvalsh(h, s) for h, s in zip(hs, ss)])
            ctx.close(np.sort(sol.calc_bands(ks, convention=conv).bands), want, "bands with overlap", 1e-9)
            check_states(ctx, sol.calc_states(ks, convention=conv), hs, ss)
            if case[1]:
                for nb in (1, 2):
                    with warnings.catch_warnings():
                        warnings.simplefilter("ignore")
                        got = sol.calc_bands(ks, convention=conv, solver="arpack", k=nb)
                        be, bs = sol.calc_states(ks, convention=conv, solver="arpack", k=nb)
                    ctx.close(np.sort(got.bands), want[:, -nb:], "bands with overlap from sparse matrices", 1e-8)
                    ctx.close(np.sort(be), want[:, -nb:], "energies with overlap from sparse matrices", 1e-8)
                    for i, (h, s) in enumerate(zip(hs, ss)):
                        for e, v in zip(be[i], bs[i]):
                            ctx.close(h @ v, e * (s @ v), "eigenstate with overlap from sparse matrices", 1e-8)
            ov.sync_array()
            for k, s in zip(ks, ss):
                ctx.close(ov.set_overlap_csr(k, conv).toarray(), s, "sparse overlap", 1e-10)
                m = np.zeros((3, 3), complex)
                ov.set_overlap_dense(k, m, conv)
                ctx.close(m, s, "dense overlap", 1e-10)
        ref.check_cell(ctx, c, r)
        ctx.state("O", case[1])
        ctx.trace(f"overlap {case[1]}")
