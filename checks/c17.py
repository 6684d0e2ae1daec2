"""C17: stochastic propagation against exact evolution by diagonalising the reference Hamiltonian."""
import ctypes
import itertools
import math
import os

import numpy as np
from scipy.special import jn_zeros
import tbplas as tb

from lib import ref

CHUNK = 2
BOUNDS = {"quick": "11 samples of 2 to 9 orbitals (open, periodic, vacancies, modifiers, several super cells, complex hoppings, 2d and 3d, "
                   "magnetic field, k-point) x 3 seeds x 1 to 3 random states x step counts {1, 2, 3, 5, 9} x 6 temperatures/chemical potentials x all "
                   "9 quantities; wave-function evolution from all basis states for all time-log subsets of 4 steps and 15 time-step scales (8 of them zeros of Bessel functions); "
                   "6 samples of about 100 orbitals over 290 steps and recursion depths up to 2100; all quantities over 140 steps and with 8 states; thread counts 1, 2, 3, 8; all call sequences of 2 quantities of new solvers, and of one solver with changes of all parameters, scaling, field or k-point in between",
          "thorough": "as quick with 6 seeds, up to 5 random states and step counts 1..16",
          "assumptions": ["the random initial states depend on seed, number of states and number of orbitals only; they are reconstructed from "
                          "DOS correlation functions of generic molecules and then used to predict everything else",
                          "Fermi functions with beta*bandwidth < 40 so that the smearing of the Jackson kernel is below 1e-4"]}


def mol(n, i):
    """A generic molecule (isolated) of n orbitals."""
    r = ref.Cell([[0.4, 0, 0], [0, 0.5, 0], [0, 0, 0.6]], unit=1.0)
    g = lambda *a: 2 * ((math.sin(12.9898 * a[0] + 78.233 * a[1] + 37.719 * a[2] + 4.581 * i + 1) * 43758.5453) % 1) - 1
    for k in range(n):
        r.add_orbital((0.9 * g(k, 1, 0), 0.8 * g(k, 2, 0), 0.7 * g(k, 3, 0)), 1.3 * g(k, k, 1))
    for a in range(n):
        for b in range(a + 1, n):
            r.add_hopping((0, 0, 0), a, b, complex(g(a, b, 2), g(a, b, 3)))
    if n == 1:
        raise ValueError
    return ref.Smp([ref.SC(r, (1, 1, 1), (0, 0, 0), (), None)]), [r]


def models():
    out = {}
    r = ref.Cell([[0.3, 0, 0], [0, 0.4, 0], [0, 0, 0.5]], (0.1, 0.2, 0), unit=1.0)
    r.add_orbital((0.2, 0.1, 0.3), 0.3)
    r.add_hopping((1, 0, 0), 0, 0, -0.8 + 0.3j)
    r.add_hopping((0, 1, 0), 0, 0, 0.5j)
    q = ref.Cell([[0.25, 0.05, 0], [-0.1, 0.3, 0.02], [0, 0.1, 0.4]], unit=1.0)
    q.add_orbital((0, 0, 0), 0.0)
    q.add_orbital((0.5, 0.4, 0.3), -0.6)
    q.add_hopping((0, 0, 0), 0, 1, 1.0)
    q.add_hopping((1, 0, 0), 0, 1, 0.4 - 0.7j)
    q.add_hopping((1, 0, 0), 1, 1, 0.2j)
    z = ref.Cell([[0.3, 0, 0], [0, 0.3, 0], [0, 0, 0.3]], unit=1.0)
    z.add_orbital((0, 0, 0), 0.0)
    z.add_hopping((1, 0, 0), 0, 0, -1.0)
    z.add_hopping((0, 1, 0), 0, 0, -1.0)
    S = ref.SC
    out["dimer"] = mol(2, 40), [0]
    out["tri"] = mol(3, 41), [0]
    out["quad"] = mol(4, 42), [0]
    def one(c, *a):
        return ref.Smp([S(c, *a)]), [c]
    out["ring3"] = one(r, (3, 3, 1), (1, 0, 0), [(i, j, 0, 0) for i in range(3) for j in (1, 2)], None), [0]
    out["ssh6"] = one(q, (3, 1, 1), (1, 0, 0), (), None), [0]
    out["ssh-open"] = one(q, (3, 1, 1), (0, 0, 0), [(1, 0, 0, 0)], None), [0]
    out["torus9"] = one(z, (3, 3, 1), (1, 1, 0), (), None), [0]
    out["grid-vac"] = one(r, (3, 3, 1), (1, 1, 0), [(0, 0, 0, 0), (2, 1, 0, 0), (1, 1, 0, 0)], None), [0]
    a = S(q, (3, 1, 1), (0, 0, 0), [(0, 0, 0, 1), (2, 0, 0, 0)], None)
    b = S(z, (3, 3, 1), (0, 0, 0), [(i, j, 0, 0) for i in range(3) for j in range(3) if (i, j) not in ((0, 0), (1, 0))], None)
    out["pair"] = (ref.Smp([a, b], [(0, 1, {((0, 0, 0), 0, 1): 0.3 + 0.1j, ((0, 0, 0), 3, 0): -0.5})]), [q, z]), [0, 1]
    t = S(q, (3, 1, 1), (1, 0, 0), [(2, 0, 0, 1)], None)
    t.add_hopping((0, 0, 0), 0, 4, 0.35 - 0.2j)
    out["mod5"] = (ref.Smp([t]), [q]), [0]
    d = S(z, (3, 3, 1), (1, 1, 0), [(i, 2, 0, 0) for i in range(3)], None)
    out["strip6"] = (ref.Smp([d]), [z]), [0]
    return out


M = {k: v[0] for k, v in models().items()}
FAC = math.pi / 4135.666734


class W:
    """An implementation sample with its exact Hamiltonian."""

    def __init__(self, m, cells, twist=None):
        built = {}
        scs = []
        for s in m.scs:
            if id(s.cell) not in built:
                built[id(s.cell)] = ref.build_cell(tb, s.cell)
            scs.append(ref.build_sc(tb, built[id(s.cell)], s))
        self.s = ref.build_sample(tb, scs, m)
        self.m = m
        self.n = m.n
        terms = m.terms()
        pos = m.pos()
        if twist == "mag":
            self.s.set_magnetic_field(900.0, gauge=0)
            terms = [(i, j, v * np.exp(1j * FAC * 900.0 * d[0] * (pos[i][1] + pos[j][1])), d) for i, j, v, d in terms]
        elif twist == "k":
            k = (0.21, -0.13, 0.4)
            self.s.set_k_point(np.array(k))
            kc = np.array(k) @ (2 * math.pi * np.linalg.inv(m.scs[0].lat).T)
            terms = [(i, j, v * np.exp(1j * float(kc @ d)), d) for i, j, v, d in terms]
        self.h = ref.ham_of(m.eng(), terms)
        self.j = []
        for d in (0, 1):
            x = np.zeros((self.n, self.n), complex)
            for i, j, v, dr in terms:
                x[i, j] += 1j * v * dr[d]
                x[j, i] += np.conj(1j * v * dr[d])
            self.j.append(x)
        self.pos = pos
        self.s.rescale_ham()
        self.e, self.v = np.linalg.eigh(self.h)
        self.er = self.s.energy_range
        self.rs = self.s.rescale
        self.dt = 2 * math.pi / self.er

    def f(self, fn):
        return (self.v * fn(self.e)) @ self.v.conj().T

    def u(self, t):
        return self.f(lambda e: np.exp(-1j * e * t))


def cfg(nt=4, nr=1, seed=1337, **kw):
    c = tb.Config()
    c.generic["nr_time_steps"] = nt
    c.generic["nr_random_samples"] = nr
    c.generic["seed"] = seed
    for k, v in kw.items():
        c.generic[k] = v
    return c


_one = []          # the solver to use again, and its configuration


def solver(ctx, s, c, prefix="x"):
    if _one and prefix == "x" and s is _one[2]:
        mine = _one[1]
        for sec in ("generic", "LDOS", "DC_conductivity", "quasi_eigenstates", "dyn_pol", "dckb"):
            getattr(mine, sec).update(getattr(c, sec))
        return _one[0]
    return tb.Solver(s, c, echo_details=False, directory=os.path.join(ctx.workdir(), "out"), prefix=prefix)


def saved(ctx, key, prefix="x"):
    return np.load(os.path.join(ctx.workdir(), "out", f"{prefix}.{key}.npy"))


_rho = {}


def rho(ctx, n, seed, nr):
    """Average density matrix of the random initial states, reconstructed from what the code returns."""
    key = (n, seed, nr)
    if key in _rho:
        return _rho[key]
    nt = 2 * n + 4
    rows, rhs = [], []
    for i in range(n + 3):
        w = W(*mol(n, i))
        got = solver(ctx, w.s, cfg(nt, nr, seed), "cal").calc_corr_dos()
        ctx.step()
        ctx.equal(np.shape(got), (nt + 1,), f"shape of the DOS correlation function of {nt} steps")
        for t in range(nt + 1):
            rows.append(w.u(t * w.dt).T.reshape(-1))       # Tr(rho U) = sum_ij rho_ij U_ji
            rhs.append(got[t])
    a, b = np.array(rows), np.array(rhs)
    x = np.linalg.lstsq(a, b, rcond=None)[0]
    res = float(np.max(np.abs(a @ x - b)))
    p = x.reshape(n, n)
    ctx.true(res < 1e-9, f"DOS correlation functions of {n + 3} molecules of {n} orbitals (seed {seed}, {nr} states) are not those of one "
                         f"set of initial states: residual {res:.3g}")
    ctx.close(p, p.conj().T, "hermiticity of the initial density matrix", 1e-7)
    ctx.close(np.trace(p), 1.0, "norm of the initial states", 1e-8)
    ev = np.linalg.eigvalsh(0.5 * (p + p.conj().T))
    ctx.true(ev[0] > -1e-7, f"initial density matrix is not positive: {ev}")
    ctx.true(np.sum(ev > 1e-7) <= nr, f"initial density matrix of {nr} states has more than {nr} components: {ev}")
    _rho[key] = 0.5 * (p + p.conj().T)
    return _rho[key]


def state(ctx, n, seed):
    p = rho(ctx, n, seed, 1)
    e, v = np.linalg.eigh(p)
    ctx.close(e[-1], 1.0, "single initial state is pure", 1e-6)
    return v[:, -1]


def states(ctx, n, seed, nr):
    """The individual states when they are those of multiples of the seed, otherwise None."""
    r = [state(ctx, n, seed * (i + 1)) for i in range(nr)]
    mean = sum(np.outer(x, x.conj()) for x in r) / nr
    if np.max(np.abs(mean - rho(ctx, n, seed, nr))) > 1e-6:
        return None
    return r


SEEDS = {"quick": [1337, 7, 1], "thorough": [1337, 7, 1, 42, 3, 99]}
NRS = {"quick": [1, 2, 3], "thorough": [1, 2, 3, 5]}
NTS = {"quick": [1, 2, 3, 5, 9], "thorough": list(range(1, 17))}
TH = [(2.0, 0.0), (6.0, 0.3), (3.0, -0.8), (1.0, 2.5), (4.0, 0.0), (0.5, -0.1)]
QTY = ["dos", "ldos", "ac", "dynpol", "dc", "hall", "qe", "haydock"]
TW = [None, "mag", "k"]


def cases(tier):
    for name in M:
        for tw in TW:
            for c in range(4):
                yield ["P", name, tw, c]
    for name in M:
        for tw in TW:
            for seed in SEEDS[tier]:
                for nr in NRS[tier]:
                    yield ["Q", name, tw, seed, nr]
    for name in ("ssh6", "torus9", "pair"):
        for a, b in itertools.product(QTY, QTY):
            yield ["S", name, a, b]
        yield ["T", name]
    for name, edit in (("ssh6", "none"), ("pair", "rescale"), ("ssh6", "k"), ("torus9", "mag"), ("mod5", "reset"), ("tri", "rescale")):
        for a, b in itertools.product(QTY + ["psi"], QTY + ["psi"]):
            yield ["R", name, edit, a, b]
    for q in range(len(BIG)):
        yield ["G", q]
    for name, nt, nr in LONG[tier]:
        for iq in range(len(QTY)):
            yield ["O", name, iq, nt, nr]
    yield ["C"]
    yield ["L"]


def run(case, ctx):
    globals()["do_" + case[0]](ctx, *case[1:])


def do_P(ctx, name, tw, part):
    w = W(*M[name], tw)
    n = w.n
    if part == 0:            # all basis states, one step and several
        c = cfg(5)
        s = solver(ctx, w.s, c)
        for i in range(n):
            p0 = np.zeros(n, complex)
            p0[i] = (2.0, 1j, -0.5)[i % 3]
            got = s.calc_psi_t(p0, np.arange(6), save_data=True)
            want = np.array([w.u(t * w.dt) @ (p0 / np.linalg.norm(p0)) for t in range(6)])
            ctx.close(got, want, f"psi(t) from basis state {i}", 1e-10)
            ctx.close(np.linalg.norm(got, axis=1), np.ones(6), "norm", 1e-10)
            ctx.close(saved(ctx, "psi_t"), got, "saved wave functions", 1e-14)
            ctx.true(abs(p0[i]) in (2.0, 1.0, 0.5), "the initial state was modified")
            ctx.state(name, tw, i)
            ctx.step()
    elif part == 1:          # time-log subsets and orders
        p0 = np.array([math.sin(1 + 2 * i) + 1j * math.cos(3 * i) for i in range(n)])
        p0 /= np.linalg.norm(p0)
        s = solver(ctx, w.s, cfg(4))
        for k in range(1, 6):
            for log in itertools.combinations(range(5), k):
                got = s.calc_psi_t(p0, list(log))
                want = np.array([w.u(t * w.dt) @ p0 for t in log])
                ctx.close(got, want, f"psi(t) at {log}", 1e-10)
                ctx.state(name, tw, log)
                ctx.step()
        ctx.close(s.calc_psi_t(p0, np.array([3, 0, 3, 1])), np.array([w.u(t * w.dt) @ p0 for t in (0, 1, 3)]), "repeated unordered log", 1e-10)
        for log in ([5], [-1], [0, 7], [2, -3]):
            ctx.raises(lambda: s.calc_psi_t(p0, log), f"time_log {log} of 4 steps", ValueError)
            ctx.step()
    elif part == 2:          # scale of the time step
        p0 = np.array([1.0 + 0.3j * i for i in range(n)])
        p0 /= np.linalg.norm(p0)
        # at a zero of a Bessel function the series must not be cut there
        zeros = [float(z) / math.pi for v in (3, 4, 5, 8) for z in jn_zeros(v, 2)]
        for sc in [1.0, 0.5, 3.0, 1e-3, 0.0, -1.0, 12.0] + zeros:
            for nt in (1, 3):
                s = solver(ctx, w.s, cfg(nt))
                got = s.calc_psi_t(p0, range(nt + 1), dt_scale=sc)
                want = np.array([w.u(t * w.dt * sc) @ p0 for t in range(nt + 1)])
                ctx.close(got, want, f"psi(t) with dt_scale {sc}", 1e-9)
                ctx.state(name, tw, sc, nt)
                ctx.step()
    else:                    # rescaling factors and precision
        p0 = np.array([1.0 + 0.3j * i for i in range(n)])
        p0 /= np.linalg.norm(p0)
        base = w.rs
        for fac in (base, base * 1.5, base * 4, max(abs(w.e)) * 1.0001):
            w.s.rescale_ham(fac)
            dt = 2 * math.pi / w.s.energy_range
            ctx.close(w.s.energy_range, 2 * fac, "energy_range is twice the scaling factor", 1e-9)
            s = solver(ctx, w.s, cfg(4))
            got = s.calc_psi_t(p0, [0, 2, 4])
            ctx.close(got, np.array([w.u(t * dt) @ p0 for t in (0, 2, 4)]), f"psi(t) with scaling factor {fac}", 1e-9)
            ctx.state(name, tw, fac)
            ctx.step()
        s = solver(ctx, w.s, cfg(4, Bessel_max=3))
        ctx.raises(lambda: s.calc_psi_t(p0, [1]), "too few Bessel functions", ValueError)
    ctx.trace(f"{name} {tw} {part}")


def fermi(w, beta, mu):
    return w.f(lambda e: 0.5 * (1 - np.tanh(0.5 * beta * (e - mu))))


def q_dos(ctx, w, seed, nr, nt, i):
    got = solver(ctx, w.s, cfg(nt, nr, seed)).calc_corr_dos()
    p = rho(ctx, w.n, seed, nr)
    ctx.close(got, np.array([np.trace(p @ w.u(t * w.dt)) for t in range(nt + 1)]), "DOS correlation", 1e-7)
    ctx.close(saved(ctx, "corr_DOS"), got, "saved data", 1e-14)
    return got


def sites_of(n, i):
    s = [[0], [n - 1], [0, n - 1], list(range(n)), [1], list(range(n))[::-1][:max(1, n // 2)]]
    return s[i % len(s)]


def q_ldos(ctx, w, seed, nr, nt, i):
    sites = sites_of(w.n, i)
    c = cfg(nt, nr, seed)
    c.LDOS["site_indices"] = sites
    got = solver(ctx, w.s, c).calc_corr_ldos()
    if len(sites) == 1:
        st = [np.eye(w.n)[sites[0]]]
    else:
        st = states(ctx, w.n, seed, nr)
    if st is not None:
        want = np.zeros(nt + 1, complex)
        for r in st:
            x = np.zeros(w.n, complex)
            x[sites] = r[sites]
            x /= np.linalg.norm(x)
            want += [np.vdot(x, w.u(t * w.dt) @ x) / len(st) for t in range(nt + 1)]
        ctx.close(got, want, f"LDOS correlation of sites {sites}", 1e-7)
    ctx.close(saved(ctx, "corr_LDOS"), got, "saved data", 1e-14)
    return got


def q_ac(ctx, w, seed, nr, nt, i):
    beta, mu = TH[i % len(TH)]
    beta, mu = beta / w.rs * 2, mu * w.rs / 3
    got = solver(ctx, w.s, cfg(nt, nr, seed, beta=beta, mu=mu, nr_Fermi_fft_steps=2 ** 12)).calc_corr_ac_cond()
    ctx.equal(np.shape(got), (4, nt), "shape of the AC correlation")
    p = rho(ctx, w.n, seed, nr)
    f = fermi(w, beta, mu)
    g = np.eye(w.n) - f
    want = np.zeros((4, nt), complex)
    for t in range(nt):
        u = w.u(0.5 * w.dt * t)
        for a in (0, 1):
            for b in (0, 1):
                want[2 * a + b, t] = np.trace(p @ f @ u.conj().T @ w.j[b] @ u @ g @ w.j[a])
    ctx.close(got, want, f"AC correlation beta {beta} mu {mu}", 2e-4)
    ctx.close(saved(ctx, "corr_AC"), got, "saved data", 1e-14)
    return got


def q_dynpol(ctx, w, seed, nr, nt, i):
    beta, mu = TH[(i + 1) % len(TH)]
    beta, mu = beta / w.rs * 2, mu * w.rs / 3
    qs = [[[1.0, 0.5, 0.0]], [[0.3, -2.0, 1.0], [4.0, 0.0, 0.0]], [[0.0, 0.0, 0.0], [0.0, 3.0, -1.0], [-7.0, 2.0, 0.5]]][i % 3]
    c = cfg(nt, nr, seed, beta=beta, mu=mu, nr_Fermi_fft_steps=2 ** 12)
    c.dyn_pol["q_points"] = qs
    got = solver(ctx, w.s, c).calc_corr_dyn_pol()
    ctx.equal(np.shape(got), (len(qs), nt), "shape of the polarization correlation")
    p = rho(ctx, w.n, seed, nr)
    f = fermi(w, beta, mu)
    g = np.eye(w.n) - f
    want = np.zeros((len(qs), nt))
    for k, q in enumerate(qs):
        d = np.diag(np.exp(1j * (w.pos @ np.array(q))))
        for t in range(nt):
            u = w.u(0.5 * w.dt * (t + DYN0))
            want[k, t] = np.trace(p @ f @ u.conj().T @ d @ u @ g @ d.conj()).imag
    ctx.close(got, want, f"polarization correlation q {qs} beta {beta} mu {mu}", 2e-4)
    ctx.close(saved(ctx, "corr_dyn_pol"), got, "saved data", 1e-14)
    return got


DYN0 = 0


def filt(w, en, nt, r):
    x = r.copy()
    for k in range(1, nt + 1):
        x = x + 0.5 * (1 + math.cos(math.pi * k / nt)) * 2 * (w.f(lambda e: np.cos((en - e) * k * w.dt)) @ r)
    return x / np.linalg.norm(x), np.linalg.norm(x)


def q_dc(ctx, w, seed, nr, nt, i):
    lim = [(-0.5 * w.rs, 0.4 * w.rs), (-2 * w.rs, 2 * w.rs), (0.1 * w.rs, 0.9 * w.rs)][i % 3]
    c = cfg(nt, nr, seed)
    c.DC_conductivity["energy_limits"] = lim
    en = np.array([0.5 * k * w.er / nt - w.er / 2 for k in range(2 * nt)])
    sel = [k for k in range(2 * nt) if lim[0] <= en[k] <= lim[1]]
    if not sel or any(min(abs(en[k] - l) for l in lim) < 1e-9 for k in range(2 * nt)):
        return None
    cd, dc = solver(ctx, w.s, c).calc_corr_dc_cond()
    p = rho(ctx, w.n, seed, nr)
    ctx.close(cd, np.array([np.trace(p @ w.u((t + 1) * w.dt)) for t in range(nt)]), "DOS correlation of the DC calculation", 1e-7)
    ctx.true(np.shape(dc)[0] == 2 and np.shape(dc)[2] == nt and np.shape(dc)[1] >= len(sel), f"shape of the DC correlation {np.shape(dc)}")
    st = states(ctx, w.n, seed, nr)
    if st is not None:
        want = np.zeros((2, len(sel), nt), complex)
        bad = set()          # the filter leaves (almost) nothing at this energy
        for r in st:
            for q, k in enumerate(sel):
                x, nx = filt(w, en[k], nt, r)
                o = abs(np.vdot(r, x))
                if o < 1e-2 or nx < 1e-3:
                    bad.add(q)
                for d in (0, 1):
                    y = w.j[d] @ x / o
                    z = w.j[d] @ r
                    for t in range(nt):
                        want[d, q, t] += np.vdot(w.u(t * w.dt) @ z, y) / nr
        good = [q for q in range(len(sel)) if q not in bad]
        ctx.close(dc[:, good], want[:, good], f"DC correlation of {len(good)} energies", 1e-6)
    ctx.close(saved(ctx, "corr_DC"), dc, "saved data", 1e-14)
    ctx.close(saved(ctx, "corr_DOS"), cd, "saved data", 1e-14)
    return dc[:, good] if st is not None else None


def q_hall(ctx, w, seed, nr, nt, i):
    nk, d = max(2, nt), i % 2
    c = cfg(1, nr, seed)
    c.dckb["n_kernel"] = nk
    c.dckb["direction"] = d + 1
    got = solver(ctx, w.s, c).calc_hall_mu()
    ctx.equal(np.shape(got), (nk, nk), "shape of the Hall moments")
    p = rho(ctx, w.n, seed, nr)
    q = math.pi / nk
    g = np.array([((nk - k) * math.cos(q * k) + math.sin(q * k) / math.tan(q)) / nk for k in range(nk)])
    g[0] *= 0.5
    tn = [w.f(lambda e: np.cos(k * np.arccos(np.clip(e / w.rs, -1, 1)))) for k in range(nk)]
    want = np.array([[g[a] * g[b] * np.trace(p @ w.j[0] @ tn[a] @ w.j[d] @ tn[b]) for b in range(nk)] for a in range(nk)])
    ctx.close(got, want, f"Hall moments {nk} direction {d + 1}", 1e-6)
    ctx.close(saved(ctx, "hall_mu"), got, "saved data", 1e-14)
    return got


def q_qe(ctx, w, seed, nr, nt, i):
    en = [[0.0], [-0.7 * w.rs, 0.2 * w.rs], [0.1, -0.1, 0.5 * w.rs, 0.0]][i % 3]
    c = cfg(nt, nr, seed)
    c.quasi_eigenstates["energies"] = en
    got = solver(ctx, w.s, c).calc_quasi_eigenstates(save_data=True)
    ctx.equal(np.shape(got), (len(en), w.n), "shape of the quasi-eigenstates")
    ctx.close(np.sum(got, axis=1), np.ones(len(en)), "norm of the quasi-eigenstates", 1e-9)
    st = states(ctx, w.n, seed, nr)
    if st is not None:
        for k, e in enumerate(en):
            fs = [filt(w, e, nt, r) for r in st]
            if min(x[1] for x in fs) > 1e-3:
                ctx.close(got[k], sum(np.abs(x[0]) ** 2 for x in fs) / nr, f"quasi-eigenstate at {e}", 1e-6)
    ctx.close(saved(ctx, "qe"), got, "saved data", 1e-14)
    return None


def q_haydock(ctx, w, seed, nr, nt, i):
    site = i % w.n
    depth = [1, 2, 3, 5, 20][i % 5]
    delta = [0.05, 0.3][i % 2]
    c = cfg(nt, 1, seed)
    c.LDOS["site_indices"] = [site]
    c.LDOS["recursion_depth"] = depth
    c.LDOS["delta"] = delta
    en, got = solver(ctx, w.s, c).calc_ldos_haydock()
    ctx.close(en, np.array([0.5 * k * w.er / nt for k in range(-nt, nt + 1)]), "energies of the Haydock LDOS", 1e-9)
    # exact Lanczos with full re-orthogonalisation
    v = [np.eye(w.n, dtype=complex)[:, site]]
    a, b = [], []
    for k in range(depth):
        y = w.h @ v[-1]
        a.append(np.vdot(v[-1], y).real)
        for _ in range(2):
            for x in v:
                y = y - np.vdot(x, y) * x
        nb = np.linalg.norm(y)
        if nb < 1e-7:
            break
        b.append(nb)
        v.append(y / nb)
    want = []
    for e in en:
        g = 0
        for k in reversed(range(len(a))):
            s = b[k] ** 2 * g if k < len(b) and k + 1 < len(a) else 0
            g = 1 / (e + 1j * delta - a[k] - s)
        want.append(-g.imag / math.pi)
    if len(b) >= len(a) and depth > len(a):
        raise AssertionError
    ctx.close(got, np.array(want), f"Haydock LDOS of site {site}, depth {depth}", 1e-5)
    return got


def do_Q(ctx, name, tw, seed, nr):
    w = W(*M[name], tw)
    nts = NTS[ctx.tier]
    for iq, qn in enumerate(QTY):
        for i, nt in enumerate(nts):
            j = i + 3 * iq + SEEDS[ctx.tier].index(seed) + nr
            r = globals()["q_" + qn](ctx, w, seed, nr, nt, j)
            ctx.step()
            ctx.state(name, tw, seed, nr, qn, nt)
            if i == 2 and r is not None:
                r2 = globals()["q_" + qn](ctx, w, seed, nr, nt, j)
                ctx.close(r2, r, f"{qn}: the same seed gives the same result", 1e-12)
    ctx.trace(f"{name} {tw} {seed} {nr}")


def big(which):
    """Large samples, for what does not depend on random states."""
    r, q = M["ring3"][1][0], M["ssh6"][1][0]
    S = ref.SC
    if which == 0:
        return ref.Smp([S(r, (11, 12, 1), (1, 1, 0), [(i, (i * 5) % 12, 0, 0) for i in range(0, 11, 3)], None)]), [r]
    if which == 1:
        s = S(q, (8, 5, 2), (1, 0, 0), [(1, 1, 1, 0), (7, 4, 1, 1)], None)
        for k in range(20):
            s.add_hopping((0, 0, 0), 3 * k, 3 * k + 40, 0.3 + 0.05j * k)
        return ref.Smp([s]), [q]
    a, b = S(q, (6, 4, 1), (0, 0, 0), (), None), S(r, (7, 9, 1), (0, 0, 0), (), None)
    return ref.Smp([a, b], [(0, 1, {((0, 0, 0), 2 * k, 3 * k): 0.4 - 0.1j * k for k in range(20)})]), [q, r]


BIG = [(w, t) for w in range(3) for t in (None, "mag")]
LONG = {"quick": [("ssh6", 140, 1), ("pair", 4, 8), ("quad", 33, 2)],
        "thorough": [("ssh6", 140, 1), ("pair", 4, 8), ("quad", 33, 2), ("tri", 300, 1), ("torus9", 64, 3), ("dimer", 17, 17)]}


def do_G(ctx, q):
    w = W(*big(BIG[q][0]), BIG[q][1])
    n, nt = w.n, 290
    p0 = np.array([math.sin(1 + 2 * i) + 1j * math.cos(3 * i) for i in range(n)])
    p0 /= np.linalg.norm(p0)
    log = [0, 1, 2, 63, 64, 127, 128, 129, 200, 255, 256, 257, 290]
    got = solver(ctx, w.s, cfg(nt)).calc_psi_t(p0, log)
    ctx.close(got, np.array([w.u(t * w.dt) @ p0 for t in log]), f"psi(t) of {n} orbitals over {nt} steps", 1e-9)
    for site in (0, n // 2, n - 1):
        c = cfg(140, 1, 3)
        c.LDOS["site_indices"] = [site]
        x = np.eye(n)[site]
        ctx.close(solver(ctx, w.s, c).calc_corr_ldos(), [np.vdot(x, w.u(t * w.dt) @ x) for t in range(141)],
                  f"LDOS correlation of site {site} of {n}", 1e-8)
        ctx.step()
    q_haydock(ctx, w, 1, 1, 40, 24)
    q_haydock(ctx, w, 1, 1, 40, 53)
    ev, vec = np.linalg.eigh(w.h)
    for site, depth, delta in ((1, None, 0.1), (n - 2, 999, 0.05), (n // 3, 1001, 0.02), (n // 2, 2100, 0.1)):
        c = cfg(40, 1, 1)
        c.LDOS["site_indices"] = [site]
        c.LDOS["delta"] = delta
        if depth is not None:
            c.LDOS["recursion_depth"] = depth
        en, got = solver(ctx, w.s, c).calc_ldos_haydock()
        want = [-np.sum(np.abs(vec[site]) ** 2 / (e + 1j * delta - ev)).imag / math.pi for e in en]
        ctx.close(got, want, f"Haydock LDOS of site {site}, depth {depth}", 1e-6)
        ctx.step()
    ctx.step(3)
    ctx.state("G", q)
    ctx.trace(f"{n} orbitals, {nt} steps")


def do_O(ctx, name, iq, nt, nr):
    w = W(*M[name], None)
    globals()["q_" + QTY[iq]](ctx, w, 7, nr, nt, 1)
    ctx.step()
    ctx.state("O", name, iq, nt, nr)
    ctx.trace(f"{QTY[iq]} of {name} over {nt} steps, {nr} states")


def do_S(ctx, name, a, b):
    """One sample, one config, quantity a then b: the second is as if it were alone."""
    w = W(*M[name])
    first = globals()["q_" + a](ctx, w, 11, 1, 4, 1)
    globals()["q_" + b](ctx, w, 11, 1, 4, 2)
    again = globals()["q_" + a](ctx, w, 11, 1, 4, 1)
    if first is not None:
        ctx.close(again, first, f"{a} after {b}", 1e-12)
    # other seeds give other states
    ctx.state(name, a, b)
    ctx.step(3)
    ctx.trace(f"{name} {a} {b}")


def q_psi(ctx, w, seed, nr, nt, i):
    p0 = np.array([math.sin(1 + 2 * k + i) + 1j * math.cos(3 * k) for k in range(w.n)])
    p0 /= np.linalg.norm(p0)
    got = solver(ctx, w.s, cfg(nt, nr, seed)).calc_psi_t(p0, range(nt + 1), dt_scale=(1.0, 2.5)[i % 2])
    ctx.close(got, [w.u(t * w.dt * (1.0, 2.5)[i % 2]) @ p0 for t in range(nt + 1)], "psi(t)", 1e-9)
    return got


def do_R(ctx, name, edit, a, b):
    """One solver object for all quantities, with the configuration and the sample changing in between."""
    w = W(*M[name])
    c = cfg()
    _one[:] = [solver(ctx, w.s, c, "y"), c, w.s]
    _one[0].set_output(directory=os.path.join(ctx.workdir(), "out"), prefix="x")
    try:
        first = globals()["q_" + a](ctx, w, 11, 1, 4, 1)
        if edit != "none":
            w2 = W(*M[name], edit if edit in ("mag", "k") else None)
            if edit == "mag":
                w.s.set_magnetic_field(900.0, gauge=0)
            elif edit == "k":
                w.s.set_k_point(np.array((0.21, -0.13, 0.4)))
            elif edit == "reset":
                w.s.reset_array()
            w.s.rescale_ham(w2.rs * 1.25)
            w.h, w.j, w.e, w.v = w2.h, w2.j, w2.e, w2.v
            w.er, w.rs = w.s.energy_range, w.s.rescale
            ctx.close(w.rs, w2.rs * 1.25, "scaling factor", 1e-9)
            w.dt = 2 * math.pi / w.er
        for seed, nr, nt, i in ((11, 1, 4, 1), (5, 2, 6, 2), (5, 1, 3, 3)):
            globals()["q_" + b](ctx, w, seed, nr, nt, i)
            ctx.step()
        again = globals()["q_" + a](ctx, w, 11, 1, 4, 1)
        if first is not None and edit == "none":
            ctx.close(again, first, f"{a} after {b} by the same solver", 1e-12)
    finally:
        _one[:] = []
    ctx.state("R", name, edit, a, b)
    ctx.step(2)
    ctx.trace(f"{name} {edit} {a} {b}")


def threads(n):
    for lib in ("libgomp.so.1",):
        try:
            ctypes.CDLL(lib).omp_set_num_threads(n)
        except (OSError, AttributeError):
            return False
    return True


def do_T(ctx, name):
    w = W(*M[name])
    try:
        base = None
        for n in (1, 2, 3, 8):
            threads(n)
            got = [globals()["q_" + q](ctx, w, 5, 2, 5, 1) for q in QTY]
            ctx.step(len(QTY))
            ctx.state(name, n)
            if base is None:
                base = got
            for q, x, y in zip(QTY, got, base):
                if x is not None:
                    ctx.close(x, y, f"{q} with {n} threads", 1e-10)
    finally:
        threads(1)
    ctx.trace(name)


def do_C(ctx):
    """Configurations: names are checked, files keep them."""
    from tbplas.tbpm.config import read_config
    w = W(*M["dimer"])
    for sec in ("generic", "LDOS", "dyn_pol", "dckb"):
        for key in ("bogus", "nr_timesteps"):
            c = cfg(3)
            getattr(c, sec)[key] = 1
            ctx.raises(lambda: solver(ctx, w.s, c), f"parameter {key} in {sec}", ValueError)
            ctx.step()
    for i, (nt, nr, seed) in enumerate(itertools.product((1, 4), (1, 3), (2, 77))):
        c = cfg(nt, nr, seed, beta=0.1 + i)
        c.LDOS["site_indices"] = [0, 1][: 1 + i % 2]
        solver(ctx, w.s, c, prefix=f"c{i}")
        d = read_config(os.path.join(ctx.workdir(), "out", f"c{i}.config.pkl"))
        for sec in ("generic", "LDOS", "DC_conductivity", "quasi_eigenstates", "dyn_pol", "dckb"):
            ctx.equal(getattr(d, sec), getattr(c, sec), f"{sec} read back")
        ctx.step()
    c = tb.Config()
    for t in (1.0, 300.0, 777.0):
        c.set_temperature(t)
        ctx.close(c.generic["beta"], 1 / (8.617333262e-5 * t), f"beta at {t} K", 1e-6, scale=1 / (8.6e-5 * t))
        ctx.step()
    ctx.trace("config")


def do_L(ctx):
    """Different seeds give different states; the average over seeds approaches the identity."""
    for n in (2, 3):
        ps = [rho(ctx, n, s, 1) for s in range(1, 13)]
        for a, b in itertools.combinations(range(12), 2):
            ctx.true(np.max(np.abs(ps[a] - ps[b])) > 1e-6, f"seeds {a + 1} and {b + 1} give the same state")
        ctx.step(12)
        for s in (1, 5):
            r = rho(ctx, n, s, 64)
            ctx.close(r, np.eye(n) / n, "average of 64 random states", 0.25)
    ctx.trace("seeds")
