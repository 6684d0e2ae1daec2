"""C07: all samples over a family of super cells and connections, in every representation."""
import itertools

import numpy as np
import tbplas as tb

from lib import ref

LAT = [[1.1, 0.2, 0.05], [-0.3, 0.9, 0.1], [0.15, -0.1, 1.4]]


def chain(z=0.0):
    r = ref.Cell(LAT, (0.2, -0.3, 0.1 + z), 1.0)
    r.add_orbital((0.1, 0.2), -1.0)
    r.add_orbital((0.6, 0.4, 0.3), 0.0)
    r.add_hopping((0, 0), 0, 1, -1.0)
    r.add_hopping((1, 0), 1, 0, 0.5 - 1j)
    return r


def square(z=1.0):
    r = ref.Cell([[1.0, 0, 0], [0, 1.0, 0], [0, 0, 1.5]], (0.0, 0.0, z), 1.0)
    r.add_orbital((0.25, 0.3), 0.2)
    r.add_hopping((1, 0), 0, 0, 0.7j)
    r.add_hopping((0, 1), 0, 0, -0.3)
    r.add_hopping((1, 1), 0, 0, 2e-6)
    return r


def menu(i):
    """Reference super cell number i, each with a cell of its own except 0 and 1."""
    if i == 0:
        return ref.SC(chain(), (3, 1, 1), (1, 0, 0))
    if i == 1:
        return ref.SC(chain(), (4, 1, 1), (0, 0, 0), [(1, 0, 0, 1)])
    if i == 2:
        return ref.SC(square(), (3, 3, 1), (1, 1, 0))
    if i == 4:
        return ref.SC(square(3.0), (8, 7, 1), (1, 0, 0), [(k, (3 * k) % 7, 0, 0) for k in range(8)], "shift")
    if i == 5:
        s = ref.SC(chain(4.0), (20, 2, 1), (1, 0, 0), [(k, k % 2, 0, k % 2) for k in range(0, 20, 3)])
        for k in range(0, 60, 4):
            s.add_hopping((k % 3 - 1, 0), k, (k + 31) % 60, 0.5 + 0.01j * k)
        return s
    s = ref.SC(square(2.0), (3, 3, 1), (0, 1, 0), [(2, 2, 0, 0)], "bend")
    s.add_hopping((0, 0), 0, 4, 1.5j)
    s.add_hopping((1, 0), 0, 1, 2.0)
    return s


LINKS = [
    {((0, 0, 0), 0, 0): 0.5j},
    {((1, 0, 0), 2, 1): -0.25, ((0, 0, 0), 1, 3): 1 - 1j, ((0, -1, 0), 4, 0): 0.125},
    {((0, 0, 1), 3, 4): 2.0, ((-1, 0, 0), 0, 4): 1j},
    {((q % 3 - 1, q % 2, 0), (7 * q) % 48, (11 * q + q // 48) % 48): 0.01 * q + 0.02j for q in range(90)},
]


def make(order, links):
    """(implementation sample, reference sample)."""
    ref_scs = [menu(i) for i in order]
    shared = None
    scs = []
    for i, s in zip(order, ref_scs):
        if i in (0, 1):
            if shared is None:
                shared = ref.build_cell(tb, s.cell)
            c = shared
        else:
            c = ref.build_cell(tb, s.cell)
        scs.append(ref.build_sc(tb, c, s))
    m = ref.Smp(ref_scs, [(b, k, dict(LINKS[t])) for b, k, t in links])
    return scs, m


def options(ctx, smp, m, scale, what):
    eng = m.eng() / scale
    h0 = m.ham() / scale
    n = m.n
    jx, jy = np.zeros((n, n), complex), np.zeros((n, n), complex)
    dxm, dym = np.zeros((n, n)), np.zeros((n, n))
    pairs = set()
    uniq = True
    for i, j, v, d in m.terms():
        v = v / scale
        jx[i, j] += v * d[0]
        jx[j, i] -= np.conj(v) * d[0]
        jy[i, j] += v * d[1]
        jy[j, i] -= np.conj(v) * d[1]
        dxm[i, j] += d[0]
        dxm[j, i] -= d[0]
        dym[i, j] += d[1]
        dym[j, i] -= d[1]
        uniq = uniq and frozenset((i, j)) not in pairs
        pairs.add(frozenset((i, j)))
    for algo, sort, cut in itertools.product(("fast", "safe"), (False, True), (1e-5, 0.3)):
        w = f"{what} build_ham_dxy {algo} sort_col={sort} cutoff={cut}"
        ptr, ind, hop, dx, dy = smp.build_ham_dxy(orb_eng_cutoff=cut, algo=algo, sort_col=sort)
        ctx.step()
        ctx.equal([np.asarray(x).dtype.kind for x in (ptr, ind, hop, dx, dy)], list("iicff"), w + " types")
        ctx.equal((len(ptr), int(ptr[0]), int(ptr[-1])), (n + 1, 0, len(ind)), w + " indptr")
        ctx.true(len(ind) == len(hop) == len(dx) == len(dy), w + " lengths")
        ctx.true(np.all(np.diff(ptr) >= 0), w + " indptr not monotonous")
        if sort:
            ctx.true(all(np.all(np.diff(ind[a:b]) >= 0) for a, b in zip(ptr[:-1], ptr[1:])), w + " not sorted")
        h = np.zeros((n, n), complex)
        gx, gy = np.zeros((n, n), complex), np.zeros((n, n), complex)
        for i in range(n):
            for p in range(ptr[i], ptr[i + 1]):
                h[i, ind[p]] += hop[p]
                gx[i, ind[p]] += hop[p] * dx[p]
                gy[i, ind[p]] += hop[p] * dy[p]
        want = h0.copy()
        for i in range(n):
            if abs(eng[i]) < cut:
                want[i, i] -= eng[i]
        ctx.close(h, want, w + " Hamiltonian", 1e-9)
        ctx.close(gx, jx, w + " current x", 1e-9)
        ctx.close(gy, jy, w + " current y", 1e-9)
        ctx.equal(len(ind), 2 * len(m.terms()) + int(np.sum(np.abs(eng) >= cut)), w + " number of entries")
    if uniq:
        gx, gy = smp.build_dxy_csr()
        ctx.close(gx.toarray(), dxm, what + " build_dxy_csr x", 1e-9)
        ctx.close(gy.toarray(), dym, what + " build_dxy_csr y", 1e-9)
    hc = smp.build_ham_csr().toarray()
    ctx.close(hc, hc.conj().T, what + " build_ham_csr not Hermitian", 1e-12)


def cases(tier):
    for order, links in (([4], []), ([5], []), ([4, 5], [[0, 1, 3]]), ([5, 4], [[1, 0, 3], [0, 1, 2]]), ([4, 0, 5], [[0, 2, 3], [1, 2, 0]])):
        yield [order, links]
    top = 3 if tier == "quick" else 4
    for num in range(1, top + 1):
        for order in itertools.permutations(range(4), num):
            pairs = list(itertools.permutations(range(num), 2))
            yield [list(order), []]
            for b, k in pairs:
                for t in range(3):
                    yield [list(order), [[b, k, t]]]
            if tier == "quick":
                if num == 3:
                    yield [list(order), [[0, 1, 0], [1, 2, 1], [2, 0, 2]]]
                    yield [list(order), [[2, 1, 1], [1, 0, 0]]]
                    yield [list(order), [[0, 2, 2], [1, 2, 0]]]
                if num == 2:
                    yield [list(order), [[0, 1, 1], [1, 0, 2]]]
            else:
                for (b, k), (b2, k2) in itertools.combinations(pairs, 2):
                    for t in range(3):
                        yield [list(order), [[b, k, t], [b2, k2, (t + 1) % 3]]]
                if num == 3:
                    for a in itertools.combinations(pairs, 3):
                        yield [list(order), [[b, k, t] for t, (b, k) in enumerate(a)]]


BOUNDS = {"quick": "all ordered choices of 1 to 3 of 4 super cells x (no, each single of 3 kinds between every ordered "
                   "pair, 4 multiple) connections x 2 argument orders x 8 build options x 2 scalings; "
                   "5 samples of up to 127 orbitals with up to 90 connections",
          "thorough": "up to 4 super cells, all pairs (and, for three super cells, triples) of connections"}
CHUNK = 2


def run(case, ctx):
    order, links = case
    scs, m = make(order, links)
    hops = []
    for b, k, t in m.inter:
        h = tb.SCInterHopping(scs[b], scs[k])
        for (rn, i, j), e in t.items():
            h.add_hopping(rn, i, j, e)
        hops.append(h)
    for arg in range(2):
        # the position of connections among the arguments does not matter
        smp = tb.Sample(*(list(scs) + hops if arg == 0 else hops + list(scs)))
        ctx.state(tuple(order), str(links), arg)
        what = f"sample {order} {links}"
        ref.check_sample(ctx, smp, m, what=what)
        options(ctx, smp, m, 1.0, what)
        smp.rescale_ham(3.5)
        ref.check_sample(ctx, smp, m, what=what + " rescaled", rescale=3.5)
        options(ctx, smp, m, 3.5, what + " rescaled")
        ctx.trace(what)
    # every lazy way to the Hamiltonian
    for first in ("build_ham_csr", "build_ham_dxy", "build_dxy_csr", "num_hop"):
        smp = tb.Sample(*scs, *hops)
        x = getattr(smp, first)
        if callable(x):
            x()
        ref.check_sample(ctx, smp, m, what=f"{what} after {first}", ks=())
        ctx.step()
    for s, sc in zip(m.scs, scs):
        ref.check_sc(ctx, sc, s, what="super cell of sample")
    ctx.equal(tb.Sample(*scs).nr_orbitals, m.scs[0].cell.n, "nr_orbitals")
    ctx.close(smp.area_unit_cell, float(np.linalg.norm(np.cross(m.scs[0].cell.lat[0], m.scs[0].cell.lat[1]))),
              "area_unit_cell")
    ctx.close(smp.volume_unit_cell, abs(float(np.linalg.det(m.scs[0].cell.lat))), "volume_unit_cell")
