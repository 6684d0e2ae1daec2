"""C23: parallel loops of the Fortran core under a simulated team of threads with every memory access recorded.

The core is compiled with access instrumentation and linked against
native/vtrace.c, which runs the members of a team one after another in a chosen
order and reports accesses of two members to the same memory, at least one of
them a write, which no barrier, atomic or lock orders.  Without such a pair all
interleavings of the region are equivalent to the one executed, so absence of
conflicts for one member per iteration decides every schedule and every number
of threads; that the results agree is checked in addition for all orders."""
import ctypes
import itertools
import math
import os
import re
import subprocess

import numpy as np
import tbplas as tb
from tbplas.fortran import f2py

from lib import ref

LIB = ctypes.CDLL(f2py.__file__)
LIB.vt_first.restype = ctypes.c_char_p
for _n in ("vt_regions", "vt_accesses", "vt_conflicts"):
    getattr(LIB, _n).restype = ctypes.c_long
BOUNDS = {"quick": "6 samples of 3 to 9 orbitals (and one of 180) and 3 primitive cells of 1 to 3 orbitals; all 9 stochastic quantities, wave-function evolution, "
                   "Kubo-Bastin trace, polarization (regular and arbitrary q), optical conductivity; teams of 2 and 3 in all orders, of 4 in 4 orders, and "
                   "one member per iteration (up to 64) in 2 orders",
          "thorough": "as quick, teams of up to 5 in all orders, more samples and step counts",
          "assumptions": ["accesses made inside BLAS/LAPACK, libgfortran and libm are not recorded (arguments passed to them are temporaries of one member)",
                          "loops with a dynamic schedule are dealt out round robin"]}


def unsupported():
    out = subprocess.run(["nm", "-D", f2py.__file__], capture_output=True, text=True).stdout
    return sorted(x.split()[-1] for x in out.splitlines() if " U " in x and re.search(r"\b(GOMP_|omp_|GOACC)", x))


UNSUP = unsupported()
if UNSUP:
    BOUNDS = {k: (v if isinstance(v, str) else v + ["not decided: the core uses " + ", ".join(UNSUP)]) for k, v in BOUNDS.items()}


def cell(i, three=True):
    r = ref.Cell([[0.25, 0.05, 0], [-0.1, 0.3, 0.02], [0, 0.1, 0.4]], (0.1, 0, 0.05), unit=1.0)
    r.add_orbital((0, 0, 0), 0.1)
    if i == 0:
        r.add_hopping((1, 0, 0), 0, 0, -0.8 + 0.3j)
        if three:
            r.add_hopping((0, 1, 0), 0, 0, 0.5j)
        return r
    r.add_orbital((0.5, 0.4, 0.3), -0.6)
    r.add_hopping((0, 0, 0), 0, 1, 1.0)
    r.add_hopping((1, 0, 0), 0, 1, 0.4 - 0.7j)
    r.add_hopping((1, 0, 0), 1, 1, 0.2j)
    if three:
        r.add_hopping((0, 1, 0), 1, 0, 0.3)
    if i == 2:
        r.add_orbital((0.2, 0.7, 0.6), 0.4)
        r.add_hopping((0, 0, 0), 1, 2, 0.6j)
        r.add_hopping((0, 0, 1) if three else (1, 0, 0), 2, 0, -0.2)
    return r


def sample(i):
    c, t, dim, pbc = [(0, False, (3, 1, 1), (1, 0, 0)), (1, False, (3, 1, 1), (0, 0, 0)), (1, False, (3, 1, 1), (1, 0, 0)),
                      (0, True, (3, 3, 1), (1, 1, 0)), (2, False, (3, 1, 1), (1, 1, 1)), (2, False, (3, 1, 1), (0, 0, 0)),
                      (2, True, (5, 4, 3), (1, 1, 1))][i]
    s = tb.Sample(tb.SuperCell(ref.build_cell(tb, cell(c, t)), dim, pbc=tuple(bool(x) for x in pbc)))
    s.rescale_ham()
    return s


def config(s, nt):
    c = tb.Config()
    c.generic.update(nr_random_samples=2, nr_time_steps=nt, seed=11, nr_Fermi_fft_steps=64, Fermi_cheb_precision=1e-4,
                     beta=2.0, mu=0.1)
    n = s.num_orb
    c.LDOS.update(site_indices=[0, n - 1], recursion_depth=4)
    c.quasi_eigenstates["energies"] = [-0.3, 0.0, 0.25]
    c.dyn_pol["q_points"] = [[1.0, 0.5, 0.0], [0.0, -2.0, 1.0]]
    r = 0.5 * s.energy_range
    c.DC_conductivity["energy_limits"] = (-0.8 * r, 0.7 * r)
    c.dckb.update(n_kernel=5, energies=[-0.3, 0.0, 0.1], ne_integral=12, direction=2)
    return c


def q_psi(s, v, ctx):
    p = np.array([1.0 + 0.3j * i for i in range(v.num_orb)])
    return s.calc_psi_t(p / np.linalg.norm(p), [0, 1, 3])


def q_hall_an(s, v, ctx):
    c = config(v, 3)
    mu = s.calc_hall_mu()
    return [mu, tb.Analyzer(v, c).calc_hall_cond(mu)]


Q = {"dos": lambda s, v, c: s.calc_corr_dos(), "ldos": lambda s, v, c: s.calc_corr_ldos(),
     "ac": lambda s, v, c: s.calc_corr_ac_cond()[:, 1:], "dynpol": lambda s, v, c: s.calc_corr_dyn_pol(),
     "dc": lambda s, v, c: s.calc_corr_dc_cond(), "hall": q_hall_an, "qe": lambda s, v, c: s.calc_quasi_eigenstates(),
     "haydock": lambda s, v, c: s.calc_ldos_haydock(), "psi": q_psi}
NT = {"quick": [3, 4], "thorough": [1, 2, 3, 4, 6]}
LQ = ["reg", "arb", "ac"]


def cases(tier):
    for i in range(6):
        for q in Q:
            for nt in NT[tier]:
                yield ["S", i, q, nt, tier]
    for i in range(3):
        for q in LQ:
            for mesh in ((2, 1, 1), (3, 2, 1), (2, 2, 2)):
                yield ["L", i, q, mesh, tier]
    for q in Q:
        yield ["S", 6, q, 3, "few"]
    for q in LQ:
        yield ["L", 2, q, (9, 8, 1), "few"]
    yield ["X", tier]


def teams(tier):
    if tier == "few":
        yield from ((0, 1, 2), (7, 6, 5, 4, 3, 2, 1, 0), tuple(range(64)))
        return
    for n in ((2, 3) if tier == "quick" else (2, 3, 4, 5)):
        for p in itertools.permutations(range(n)):
            yield p
    for p in ((0, 1, 2, 3), (3, 2, 1, 0), (2, 0, 3, 1), (1, 3, 0, 2)):
        yield p
    yield tuple(range(64))
    yield tuple(range(63, -1, -1))


def where(msg):
    def sub(m):
        out = subprocess.run(["addr2line", "-e", f2py.__file__, "0x" + m.group(1)], capture_output=True, text=True).stdout
        return os.path.basename(out.strip()) or m.group(1)
    return re.sub(r"<([0-9a-f]+)>", sub, msg)


def flat(x):
    if isinstance(x, (list, tuple)):
        return np.concatenate([flat(y) for y in x])
    return np.asarray(x).astype(complex).reshape(-1)


def explore(ctx, fn, what):
    if UNSUP:
        return
    one = (ctypes.c_int * 1)(0)
    LIB.vt_config(1, one)
    LIB.vt_reset()
    want = flat(fn())
    ok = np.isfinite(want)
    regions = LIB.vt_regions()
    ctx.true(regions >= 0, "regions")
    tier = ctx.case[-1]
    for p in teams(tier):
        LIB.vt_config(len(p), (ctypes.c_int * len(p))(*p))
        LIB.vt_reset()
        got = flat(fn())
        n = LIB.vt_conflicts()
        msg = where(LIB.vt_first().decode()) if n else ""
        LIB.vt_config(1, one)
        ctx.true(n == 0, lambda: f"{what}: the result depends on how threads interleave: {msg}")
        ctx.equal(got.shape, want.shape, f"{what}: shape with {len(p)} threads")
        ctx.close(got[ok], want[ok], f"{what}: result with {len(p)} threads in the order {p[:6]}", 1e-8)
        ctx.state(what, p)
        ctx.step(max(1, LIB.vt_accesses()))
    ctx.trace(f"{what}: {regions} parallel regions per call")


def run(case, ctx):
    if case[0] == "S":
        _, i, q, nt, tier = case

        def fn():
            v = sample(i)
            s = tb.Solver(v, config(v, nt), echo_details=False, directory=os.path.join(ctx.workdir(), "o"))
            return Q[q](s, v, ctx)
        explore(ctx, fn, f"{q} of sample {i}, {nt} steps")
    elif case[0] == "L":
        _, i, q, mesh, tier = case
        c = ref.build_cell(tb, cell(i))

        def fn():
            li = tb.Lindhard(c, energy_max=3.0, energy_step=5, kmesh_size=tuple(mesh), mu=0.05, temperature=300.0, delta=0.05)
            if q == "reg":
                return li.calc_dyn_pol_regular(np.array([[1, 0, 0], [0, 1, 1], [0, 0, 0]], dtype=np.int64), use_fortran=True)
            if q == "arb":
                return li.calc_dyn_pol_arbitrary(np.array([[0.7, 0.2, 0.0], [0.0, 1.1, -0.3]]), use_fortran=True)
            return [li.calc_ac_cond(component=d, use_fortran=True) for d in ("xx", "xy")]
        explore(ctx, fn, f"{q} of cell {i}, mesh {mesh}")
    else:
        # the exploration itself: the core has parallel regions and they are seen
        v = sample(2)
        LIB.vt_reset()
        tb.Solver(v, config(v, 3), echo_details=False, directory=os.path.join(ctx.workdir(), "o")).calc_quasi_eigenstates()
        ctx.trace(f"regions {LIB.vt_regions()}")
