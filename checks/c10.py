"""C10: automatic scaling: every small sample over signs and sizes of energies and amplitudes."""
import itertools

import numpy as np
import tbplas as tb

from lib import ref

E = [0.0, 1.0, -1.0, -7.0, 0.01]
A = [1.0, -2.0 + 1j, 0.001j, 50.0, -0.3]
LAT = np.diag([1.0, 1.1, 1.2])
BOUNDS = {"quick": "5 geometries x 2 to 3 orbitals per cell x all energies from 5 values x all amplitudes from 5 values "
                   "(per orbital and per bond), x 6 histories of scaling; two-layer samples with 286 orbitals and a few stronger bonds",
          "thorough": "the same with 7 energies and 7 amplitudes"}


def geom(name, eng, amp):
    """Reference sample: molecule, ring or sheet; engs and amplitudes per site and bond."""
    r = ref.Cell(LAT, unit=1.0)
    n = len(eng)
    for i, e in enumerate(eng):
        r.add_orbital((0.2 * i, 0.1 * i * i, 0), e)
    if name == "mol":
        for i, a in enumerate(amp):
            r.add_hopping((0, 0), i, i + 1, a)
        return ref.Smp([ref.SC(r, (1, 1, 1))])
    if name == "chain":
        r.add_hopping((0, 0), 0, 1, amp[0])
        r.add_hopping((1, 0), n - 1, 0, amp[-1])
        return ref.Smp([ref.SC(r, (3, 1, 1), (1, 0, 0))])
    if name == "link":
        r.add_hopping((0, 0), 0, 1, amp[0])
        s1, s2 = ref.SC(r, (1, 1, 1)), ref.SC(r, (2, 1, 1))
        return ref.Smp([s1, s2], [(0, 1, {((0, 0, 0), 0, 3): amp[-1]})])
    if name == "large":      # a strongly bound site somewhere in a large sample
        r.add_hopping((0, 0), 0, 1, amp[0])
        r.add_hopping((1, 0), 1, 0, amp[0])
        r.add_hopping((0, 1), 0, n - 1, 0.5)
        s = ref.SC(r, (9, 8, 1), (1, 1, 0), [(2, 2, 0, 0), (8, 7, 0, 1)])
        s2 = ref.SC(r, (9, 8, 1), (1, 1, 0))
        for q, c in enumerate([(0, 1), (30, 40), (s.n - 2, s.n - 1)]):
            s.add_hopping((0, 0, 0), c[0], c[1], amp[-1] * (q + 1))
        return ref.Smp([s, s2], [(0, 1, {((0, 0, 0), s.n - 1, s2.n - 1): 2 * amp[-1]})])
    if name == "image":      # bonds of orbitals to their own images, only there because of the boundary conditions
        r.add_hopping((0, 0), 0, 1, amp[0])
        s = ref.SC(r, (1, 1, 1), (1, 1, 0))
        s.add_hopping((1, 0, 0), 0, 0, amp[0])
        s.add_hopping((0, 1, 0), 1, 1, amp[-1])
        s.add_hopping((1, 1, 0), 0, 1, amp[-1])
        return ref.Smp([s])
    r.add_hopping((1, 0), 0, 0, amp[0])
    r.add_hopping((0, 1), 0, n - 1, amp[-1])
    return ref.Smp([ref.SC(r, (3, 3, 1), (1, 1, 0), [(0, 0, 0, 0)])])


def cases(tier):
    es = E if tier == "quick" else E + [300.0, -0.5]
    am = A if tier == "quick" else A + [1e-6, -3.0]
    for e in itertools.product(es, repeat=2):
        for a in am:
            for g in ("mol", "chain", "link", "sheet", "image"):
                yield [g, list(e), [[a.real, a.imag] if isinstance(a, complex) else [a, 0.0]], am is not A]
    for a in am:
        yield ["large", [0.5, -1.0], [[a.real, a.imag] if isinstance(a, complex) else [a, 0.0]], am is not A]
    for e in itertools.product(es, repeat=3):
        yield ["mol", list(e), None, am is not A]


def verify(ctx, smp, m, what):
    smp.rescale_ham()
    ctx.step()
    ctx.true(np.isfinite(smp.rescale) and smp.rescale > 0, lambda: f"{what}: factor {smp.rescale}")
    ev = np.linalg.eigvalsh(smp.build_ham_csr().toarray())
    ctx.true(max(abs(ev[0]), abs(ev[-1])) <= 1 + 1e-9,
             lambda: f"{what}: rescaled spectrum {ev[0]} ... {ev[-1]}")
    w = np.linalg.eigvalsh(m.ham())
    ctx.true(max(abs(w[0]), abs(w[-1])) <= smp.energy_range / 2 * (1 + 1e-9),
             lambda: f"{what}: energy range {smp.energy_range} for spectrum {w[0]} ... {w[-1]}")
    ctx.close(ev * smp.rescale, w, f"{what}: rescaled Hamiltonian is not the original divided by the factor", 1e-9)


def run(case, ctx):
    g, e, a, more = case
    am = A if not more else A + [1e-6, -3.0]
    if a is None:
        combos = list(itertools.product(am, repeat=2))
    else:
        a0 = complex(*a[0])
        combos = [(a0, b) for b in am] if g != "mol" else [(a0,)]
    for amp in combos:
        for hist in ("", "big", "small", "auto", "k", "mag"):
            m = geom(g, e, amp)
            scs, cells = [], {}
            for s in m.scs:
                if id(s.cell) not in cells:
                    cells[id(s.cell)] = ref.build_cell(tb, s.cell)
                scs.append(ref.build_sc(tb, cells[id(s.cell)], s))
            smp = ref.build_sample(tb, scs, m)
            if hist == "big":
                smp.rescale_ham(100.0)
            elif hist == "small":
                smp.rescale_ham(0.01)
            elif hist == "auto":
                smp.rescale_ham()
            elif hist == "k":
                smp.set_k_point(np.array([0.3, 0.2, 0.0]))
                m2 = m.ham
                m.ham = lambda: m2((0.3, 0.2, 0.0))
            elif hist == "mag":
                smp.set_magnetic_field(0.0)
            ctx.state(g, tuple(e), str(amp), hist)
            ctx.case = [g, e, a, more, str(amp), hist]
            verify(ctx, smp, m, f"{g} energies {e} amplitudes {amp} history {hist!r}")
            ctx.trace(f"{g} {e} {amp} {hist}")
