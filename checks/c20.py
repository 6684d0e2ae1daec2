"""C20: Wilson loops, their bookkeeping, and spin textures against projectors of explicit Bloch Hamiltonians."""
import itertools
import math

import numpy as np
import tbplas as tb

from lib import ref

CHUNK = 2
PI = math.pi
BOUNDS = {"quick": "8 models of 2..12 orbitals (2- and 3-dimensional, with and without spin) x all numbers of occupied bands x 7 loops x 4 kb sets x 2 kc, "
                   "all orderings of the orbitals of models of up to 4 and 3 placements of the orbitals; Kane-Mele and BHZ models on parameter grids on both sides of the transition "
                   "x placements x 4 reference values; all phase curves of 1..3 bands with slopes from 3 values on up to 5 points, 8 starting points; "
                   "curves of 1, 4 and 7 bands on 600 points; all phase tables over 3 values up to 4x2 for the counter; spin textures of 4 models x 2 orders x 3 components x all "
                   "sequences of 3 edits and evaluations; pairs of changes of 1e-1 to 1e-6 of a parameter",
          "thorough": "as quick with loops up to 40 points, phase curves on 6 points and sequences of 4 operations",
          "assumptions": ["loops are taken where the occupied states are separated from the others by a gap",
                          "reordering: steps smaller than the threshold, bands further apart than twice the threshold"]}


def km(lso, dv, place=0, rash=0.0):
    """Kane-Mele model; orbitals A up, A down, B up, B down.  Topological for |dv| < 3 sqrt(3) lso."""
    r = ref.Cell([[0.246, 0, 0], [0.123, 0.213, 0], [0, 0, 1.0]], unit=1.0)
    a, b = [((0, 0, 0), (1 / 3, 1 / 3, 0)), ((0.2, 0.37, 0.1), (0.53, 0.7, -0.2)), ((0, 0, 0), (0, 0, 0)), ((0.5, 0.1, 0), (1.2, 0.3, 0))][place]
    for p, e in ((a, dv), (a, dv), (b, -dv), (b, -dv)):
        r.add_orbital(p, e)
    for s, z in ((0, 1), (1, -1)):
        for rn in ((0, 0, 0), (-1, 0, 0), (0, -1, 0)):
            r.add_hopping(rn, s, 2 + s, -1.0)
        for rn in ((1, 0, 0), (-1, 1, 0), (0, -1, 0)):
            r.add_hopping(rn, s, s, 1j * lso * z)
            r.add_hopping(rn, 2 + s, 2 + s, -1j * lso * z)
    if rash:
        # i lam (s x d)_z along the three bonds
        for rn, d in (((0, 0, 0), (math.sqrt(3) / 2, 0.5)), ((-1, 0, 0), (-math.sqrt(3) / 2, 0.5)), ((0, -1, 0), (0.0, -1.0))):
            # s_x d_y - s_y d_x
            ud = 1j * rash * (d[1] + 1j * d[0])
            du = 1j * rash * (d[1] - 1j * d[0])
            r.add_hopping(rn, 0, 3, ud)
            r.add_hopping(rn, 1, 2, du)
    return r


def bhz(m, place=0):
    """BHZ model on the square lattice: topological for 0 < m < 4 or -4 < m < 0 (excluding 0)."""
    r = ref.Cell([[0.5, 0, 0], [0, 0.5, 0], [0, 0, 1]], unit=1.0)
    ps = [[(0, 0, 0)] * 4, [(0.1, 0.2, 0), (0.6, 0.7, 0), (0.1, 0.2, 0), (0.6, 0.7, 0)], [(0.3, -0.4, 0)] * 4][place]
    for p, e in zip(ps, (2 - m, -(2 - m), 2 - m, -(2 - m))):
        r.add_orbital(p, e)
    # spin up block: orbitals 0, 1; spin down: 2, 3 (time reversed)
    for o, c in ((0, 1), (2, -1)):
        for rn in ((1, 0, 0), (0, 1, 0)):
            r.add_hopping(rn, o, o, -0.5)
            r.add_hopping(rn, o + 1, o + 1, 0.5)
        # sin kx sx_z-type: A (sin kx +- i sin ky)
        for sgn in (1, -1):
            r.add_hopping((sgn, 0, 0), o, o + 1, -0.5j * sgn * c)
            r.add_hopping((0, sgn, 0), o, o + 1, 0.5 * sgn)
    return r


def generic(n, dim, seed):
    """A gapped-by-construction model without symmetries: values from a fixed table."""
    r = ref.Cell([[0.3, 0.02, 0.01], [-0.1, 0.4, 0.0], [0.05, 0.03, 0.5]], unit=1.0)
    for i in range(n):
        r.add_orbital((0.17 * i, -0.23 * i + 0.1, 0.31 * i), 1.7 * i + 0.11 * seed)
    t = [0.31, -0.42, 0.27, 0.19, -0.36, 0.45, -0.23]
    k = seed
    rns = [(0, 0, 0), (1, 0, 0), (0, 1, 0), (1, -1, 0)] + ([(0, 0, 1), (1, 0, -1)] if dim == 3 else [])
    for rn in rns:
        for i in range(n):
            for j in range(n):
                if rn == (0, 0, 0) and i >= j or (i + 2 * j + k) % 3 == 2:
                    continue
                k += 1
                e = complex(t[k % 7], 0 if rn != (0, 0, 0) and i == j and k % 2 else t[(3 * k + 1) % 7])
                r.add_hopping(rn, i, j, e * 0.8)
    return r


def models():
    return {"km": km(0.1, 0.2), "kmr": km(0.1, 0.1, 1, 0.07), "bhz": bhz(1.0, 1), "g2": generic(2, 2, 1), "g3": generic(3, 3, 2), "g4": generic(4, 3, 5),
            "g6": generic(6, 2, 3), "g12": generic(12, 3, 4)}


M = models()
LOOPS = {"n1": [0.3], "n2": [0.0, 0.5], "n3": [-0.5, 0.1, 0.4], "n8": [i / 8 for i in range(8)], "end": [-0.5, -0.2, 0.0, 0.2, 0.5],
         "rev": [0.5 - i / 7 for i in range(8)], "wind": [i / 6 for i in range(13)], "n40": [i / 40 for i in range(40)]}
KB = {"one": [0.13], "pair": [0.0, 0.5], "path": [-0.3, -0.1, 0.07, 0.22, 0.5], "rep": [0.2, 0.2, -0.8]}


def permuted(r, p):
    """Same model, orbitals renumbered: new i was old p[i]."""
    q = ref.Cell(r.lat, r.origin, unit=1.0)
    inv = {o: i for i, o in enumerate(p)}
    q.orbs = [r.orbs[o] for o in p]
    for (rn, i, j), e in r.hops.items():
        q.add_hopping(rn, inv[i], inv[j], e)
    return q


def projectors(r, ks, occ):
    """Projectors on the occupied states in the periodic gauge; None without a gap."""
    out = []
    for k in ks:
        w, v = np.linalg.eigh(r.ham(k, 2))
        if occ < r.n and w[occ] - w[occ - 1] < 1e-3:
            return None
        u = v[:, :occ]
        out.append(u @ u.conj().T)
    return out


def wilson(r, ka, kb, kc, occ):
    """Eigenvalues of the ordered product of projectors around the loop."""
    p = projectors(r, [(a, kb, kc) for a in ka], occ)
    if p is None:
        return None
    d = p[0]
    for x in p[1:]:
        d = d @ x
    d = d @ p[0]
    w = np.linalg.eigvals(d)
    return w[np.argsort(-abs(w))][:occ]


def match(ctx, got, want, what):
    """Multisets of phases on the circle."""
    want = list(want)
    ctx.true(len(got) == len(want) and np.all(np.isfinite(got)), lambda: f"{what}: got {got}")
    ctx.true(all(x >= -PI - 1e-9 and x <= PI + 1e-9 for x in got), lambda: f"{what}: range of {got}")
    if min(abs(w) for w in want) < 1e-4:
        return
    left = [w / abs(w) for w in want]
    for x in got:
        z = complex(math.cos(x), math.sin(x))
        d = [abs(z - y) for y in left]
        i = d.index(min(d))
        ctx.true(d[i] < 2e-5, lambda: f"{what}: phases {list(got)}, want {sorted(np.angle(want))}")
        left.pop(i)


def phases(ctx, z, r, ka, kb, kc, occ, what, dflt=False):
    a, b = np.array(ka, float), np.array(kb, float)
    ka_, kb_ = a.copy(), b.copy()
    kb2, p = z.calc_phases(a, b, kc) if not dflt else z.calc_phases(a, b)
    ctx.true(np.array_equal(a, ka_) and np.array_equal(b, kb_), what + ": arguments altered")
    ctx.close(kb2, b, what + ": kb", 1e-12)
    ctx.equal(p.shape, (len(kb), occ), what + ": shape")
    ctx.step(1)
    n = 0
    for i, y in enumerate(kb):
        w = wilson(r, ka, y, kc, occ)
        if w is not None:
            n += 1
            match(ctx, p[i], w, f"{what} at kb={y}")
    return p, n


def cases(tier):
    for m in M:
        for occ in range(1, M[m].n + 1):
            for l in LOOPS:
                if l == "n40" and tier == "quick" and occ != M[m].n // 2:
                    continue
                if m == "g12" and (l not in ("n8", "wind", "n40") or occ not in (1, 5, 6, 7, 11, 12)):
                    continue
                yield ["loop", m, occ, l]
    for m in ("g2", "g3", "km", "g4"):
        for p in itertools.permutations(range(M[m].n)):
            yield ["perm", m, list(p)]
    for place in range(4):
        for lso, dv, rash in [(0.1, 0.0, 0), (0.1, 0.3, 0), (0.1, 0.7, 0), (0.02, 0.3, 0), (0.1, -0.2, 0), (0.06, 0.1, 0.05), (0.06, 0.4, 0.05), (-0.1, 0.1, 0)]:
            yield ["km", place, lso, dv, rash]
    for place in range(3):
        for m in (1.0, 2.5, -1.0, 5.0, 3.3):
            yield ["bhz", place, m]
    n = 5 if tier == "quick" else 6
    for nb in (1, 2, 3):
        for s in range(8):
            yield ["reorder", nb, s, n if nb < 3 else n - 1]
    for nb in (1, 4, 7):
        for s in range(8):
            yield ["long", nb, s]
    for a in range(1, 5):
        for b in range(1, 3):
            yield ["count", a, b]
    d = 3 if tier == "quick" else 4
    for m in ("km", "bhz", "g2", "g4", "g12"):
        for sm in (True, False):
            yield ["spin", m, sm]
    for ops in itertools.product(range(6), repeat=2):
        yield ["hist", list(ops), d]
    for q in (1, 2, 3, 4, 5, 6):
        yield ["small", q]
    yield ["bad"]
    yield ["default"]


def run(case, ctx):
    globals()["do_" + case[0]](ctx, *case[1:])


def do_loop(ctx, m, occ, l):
    r = M[m]
    c = ref.build_cell(tb, r)
    n = 0
    for b in KB:
        for kc in (0.0, 0.29):
            z = tb.Z2(c, num_occ=occ, echo_details=False)
            ctx.equal(z.num_occ, occ, "num_occ")
            n += phases(ctx, z, r, LOOPS[l], KB[b], kc, occ, f"{m} occ {occ} loop {l} kb {b} kc {kc}", dflt=kc == 0.0)[1]
            ctx.state("loop", m, occ, l, b, kc)
    ctx.trace(f"{m}, {occ} occupied, loop {l}: {n} gapped loops")


def do_perm(ctx, m, p):
    r = permuted(M[m], p)
    for occ in range(1, r.n):
        z = tb.Z2(ref.build_cell(tb, r), num_occ=occ, echo_details=False)
        # judged by the reference of the model before renumbering
        phases(ctx, z, M[m], LOOPS["n8"], KB["path"], 0.1, occ, f"{m} renumbered {p} occ {occ}")
        ctx.state("perm", m, p, occ)
    ctx.trace(f"{m} renumbered {p}")


def index(ctx, r, want, what):
    c = ref.build_cell(tb, r)
    for na, nb, kw in ((31, 241, {}), (40, 121, dict(threshold=0.25))):
        z = tb.Z2(c, num_occ=2, echo_details=False)
        kb, p = z.calc_phases(np.linspace(-0.5, 0.5, na), np.linspace(0.0, 0.5, nb))
        keep = p.copy()
        q = z.reorder_phases(p, **kw)
        ctx.true(np.array_equal(p, keep), what + ": reorder_phases altered its input")
        ctx.step(2)
        for rf in (0.5, 0.2, -1.03, 2.07):
            # the curves are unwrapped: the reference line is a line on the circle
            n = sum(z.count_crossing(q, rf + 2 * PI * w) for w in range(-2, 3))
            ctx.equal(n % 2, want, f"{what}: {n} crossings of {rf}, loops of {na} points, {nb} loops: index")


def do_km(ctx, place, lso, dv, rash):
    want = 1 if abs(dv) < 3 * math.sqrt(3) * abs(lso) - (0.2 if rash else 0) else 0
    index(ctx, km(lso, dv, place, rash), want, f"Kane-Mele lambda {lso} staggering {dv} Rashba {rash} placement {place}")
    ctx.state("km", place, lso, dv, rash)
    ctx.trace(f"Kane-Mele {lso} {dv} {rash} placement {place}: index {want}")


def do_bhz(ctx, place, m):
    want = 1 if 0 < m < 4 else 0
    index(ctx, bhz(m, place), want, f"BHZ m {m} placement {place}")
    ctx.state("bhz", place, m)
    ctx.trace(f"BHZ {m}: index {want}")


def wrap(x):
    return (x + PI) % (2 * PI) - PI


def do_reorder(ctx, nb, s, npt):
    start = -3.1 + 0.77 * s
    z = tb.Z2(ref.build_cell(tb, M["g4"]), num_occ=nb, echo_details=False)
    z1 = 0
    for thr in (0.1, 0.3):
        sl = [-0.9 * thr, 0.0, 0.7 * thr]
        gaps = [(2.9 * thr + npt * 1.7 * thr) * 0 + 1.9] * nb
        for path in itertools.product(itertools.product(sl, repeat=npt - 1), repeat=nb) if nb == 1 else paths(nb, npt, sl):
            cur = np.zeros((npt, nb))
            cur[0] = [start + gaps[0] * i for i in range(nb)]
            for b, p in enumerate(path):
                cur[1:, b] = cur[0, b] + np.cumsum(p)
            inp = np.sort(wrap(cur), axis=1)
            # bands well apart on the circle
            ok = True
            for row in inp:
                d = np.diff(np.append(row, row[0] + 2 * PI)) if nb > 1 else [9]
                ok = ok and min(d) > 2.05 * thr
            if not ok:
                continue
            keep = inp.copy()
            for smooth in (True, False):
                kw = {} if thr == 0.1 and smooth else dict(threshold=thr, smooth=smooth)
                out = z.reorder_phases(inp, **kw)
                what = f"reorder {keep.tolist()} {kw}"
                ctx.true(np.array_equal(inp, keep), lambda: what + ": input altered")
                ctx.true(out is not inp and out.shape == inp.shape, lambda: what + ": shape")
                ctx.true(np.max(np.abs(np.diff(out, axis=0))) < thr, lambda: f"{what}: not continuous: {out.tolist()}")
                dev = np.abs(np.exp(1j * np.sort(wrap(out + 1e-9), axis=1)) - np.exp(1j * np.sort(wrap(inp + 1e-9), axis=1)))
                ctx.true(dev.max() < 1e-6, lambda: f"{what}: not a permutation at every point: {out.tolist()}")
                ctx.true(np.allclose(out[0], inp[0]), lambda: what + ": first point")
                z1 += 1
            ctx.state("reorder", thr, keep.tolist())
            ctx.step(2)
    ctx.trace(f"{z1} reorderings of {nb} bands from {start:.2f}")


def do_long(ctx, nb, s):
    """Long curves which wind around the circle several times."""
    z = tb.Z2(ref.build_cell(tb, M["g12"]), num_occ=nb, echo_details=False)
    npt = 600
    x = np.arange(npt)
    drift = [0.08 * x, -0.09 * x, 3 * np.sin(0.03 * x), 0.05 * x + np.sin(0.02 * x), 0 * x, -0.03 * x, 0.099 * x, 2 * np.cos(0.04 * x)][s]
    cur = drift[:, None] + np.array([0.37 + 2 * PI * b / nb for b in range(nb)])[None, :]
    inp = np.sort(wrap(cur), axis=1)
    keep = inp.copy()
    for kw in ({}, dict(smooth=False), dict(threshold=0.15)):
        out = z.reorder_phases(inp, **kw)
        ctx.true(np.array_equal(inp, keep), "input altered")
        ctx.true(np.max(np.abs(np.diff(out, axis=0))) < kw.get("threshold", 0.1), lambda: f"{nb} long curves {s} {kw}: not continuous")
        dev = np.abs(np.exp(1j * np.sort(wrap(out + 1e-9), axis=1)) - np.exp(1j * np.sort(wrap(inp + 1e-9), axis=1)))
        ctx.true(dev.max() < 1e-6, lambda: f"{nb} long curves {s} {kw}: not a permutation at every point")
        ctx.close(out - out[0], np.repeat((drift - drift[0])[:, None], nb, axis=1), f"{nb} long curves {s} {kw}", 1e-6)
        for rf in (0.5, 4.0, -7.7):
            if np.min(np.abs(out - rf)) < 1e-9:
                continue
            want = int(np.sum((out[:-1] < rf) != (out[1:] < rf)))
            ctx.equal(tb.Z2.count_crossing(out, rf), want, f"crossings of {rf} by {nb} long curves {s}")
        ctx.step(4)
    ctx.state("long", nb, s)
    ctx.trace(f"{nb} long curves {s}")


def paths(nb, npt, sl):
    """All constant slopes and all single changes of slope per band."""
    one = []
    for a, b in itertools.product(sl, repeat=2):
        for cut in range(1, npt - 1):
            if a == b and cut > 1:
                continue
            one.append(tuple([a] * cut + [b] * (npt - 1 - cut)))
    if nb == 3:
        one = one[::2]
    return itertools.product(one, repeat=nb)


def do_count(ctx, npt, nb):
    vals = [-1.0, 0.3, 2.0]
    n = 0
    for v in itertools.product(vals, repeat=npt * nb):
        a = np.array(v).reshape(npt, nb)
        for rf in (-1.0, 0.3, 2.0):
            if rf in a[0] or rf in a[-1]:
                continue
            # points on the reference: the parity is what counts
            ctx.equal(tb.Z2.count_crossing(a, rf) % 2, int(np.sum((a[0] < rf) != (a[-1] < rf))) % 2,
                      f"parity of the crossings of {rf} by {a.tolist()}")
            n += 1
        for rf in (None, -0.4, 1.1, 5.0, 0.0):
            got = tb.Z2.count_crossing(a) if rf is None else tb.Z2.count_crossing(a, rf)
            x = 0.5 if rf is None else rf
            want = sum(1 for b in range(nb) for i in range(npt - 1) if (a[i, b] < x) != (a[i + 1, b] < x))
            ctx.equal(got, want, f"crossings of {rf} by {a.tolist()}")
            n += 1
    ctx.step(n)
    ctx.state("count", npt, nb)
    ctx.trace(f"{n} tables {npt}x{nb}")


def sigma(n, sm, comp):
    s = {"x": [[0, 1], [1, 0]], "y": [[0, -1j], [1j, 0]], "z": [[1, 0], [0, -1]]}[comp]
    e = np.eye(n // 2)
    return np.kron(s, e) if sm else np.kron(e, s)


def spin(ctx, t, r, ks, sm, comp, what, tol=1e-6):
    got = t.eval(comp) if comp != "d" else t.eval()
    ctx.step(1)
    comp = "z" if comp == "d" else comp
    n = r.n
    ctx.equal(got.shape, (len(ks), n), what + ": shape")
    sg = sigma(n, sm, comp)
    for i, k in enumerate(ks):
        w, v = np.linalg.eigh(r.ham(k, 1))
        # the convention matters not: sigma is local in the position
        b = 0
        while b < n:
            e = b + 1
            while e < n and w[e] - w[e - 1] < 1e-7:
                e += 1
            u = v[:, b:e]
            want = np.trace(u.conj().T @ sg @ u).real
            ctx.close(np.sum(got[i, b:e]), want, f"{what}: component {comp} at {k}, bands {b}..{e - 1}", tol)
            b = e


GRIDS = [np.array([[0.13, -0.27, 0.4]]), np.array([[0.0, 0.0, 0.0], [0.1, 0.2, 0.0], [0.5, 0.33, 0.2], [-0.7, 0.4, 0.1]]),
         np.array([[0.31, 0.07, 0.0], [0.02, -0.41, 0.5]])]


def spinmodel(m, sm):
    """Two spins per site at one position."""
    r = M[m].clone()
    n = r.n
    for i in range(n):
        site = i % (n // 2) if sm else i // 2
        r.orbs[i] = ((0.2 * site, 0.3 * site, 0.0),) + r.orbs[i][1:]
    return r


def do_spin(ctx, m, sm):
    r = spinmodel(m, sm)
    c = ref.build_cell(tb, r)
    g = 2 * PI * np.linalg.inv(r.lat).T
    for ks in GRIDS:
        keep = ks.copy()
        t = tb.SpinTexture(c, ks, spin_major=sm, echo_details=False) if not sm else tb.SpinTexture(c, ks, echo_details=False)
        for comp in ("x", "y", "z", "d", "y", "x"):
            spin(ctx, t, r, keep, sm, comp, f"{m} spin major {sm}")
            ctx.state("spin", m, sm, len(ks), comp)
        ctx.close(t.k_cart, keep @ g, "k_cart", 1e-9)
        ctx.close(t.k_grid, keep, "k_grid", 1e-12)
        ctx.true(np.array_equal(ks, keep), "k grid altered")
        st = np.arange(r.n) * (1 + 2j)
        u, d = t.split_spin(st)
        ctx.close(u, st[:r.n // 2] if sm else st[0::2], "split_spin up", 1e-12)
        ctx.close(d, st[r.n // 2:] if sm else st[1::2], "split_spin down", 1e-12)
    ctx.trace(f"{m} spin major {sm}")


def do_hist(ctx, first, depth):
    """All histories of edits of the model and the grid, each followed by evaluations."""
    for rest in itertools.product(range(6), repeat=depth - 2):
        ops = list(first) + list(rest)
        r = spinmodel("g4", True)
        c = ref.build_cell(tb, r)
        gi = 1
        t = tb.SpinTexture(c, GRIDS[1].copy(), echo_details=False)
        z = tb.Z2(c, num_occ=2, echo_details=False)
        for s, o in enumerate(ops):
            if o == 0:
                r.set_orbital(1, energy=0.3 - s)
                c.set_orbital(1, energy=0.3 - s)
            elif o == 1:
                r.add_hopping((1, 0, 0), 0, 3, 0.5 + 0.1j * s)
                c.add_hopping((1, 0, 0), 0, 3, 0.5 + 0.1j * s)
            elif o == 2:
                r.add_hopping((0, 2, 0), 1, 1, 0.25 * (s + 1))
                c.add_hopping((0, 2, 0), 1, 1, 0.25 * (s + 1))
            elif o == 3:
                gi = (gi + 1) % 3
                t.k_grid = GRIDS[gi].copy()
            elif o == 4:
                k = (sorted(r.hops))[0]
                r.remove_hopping(*k)
                c.remove_hopping(*k)
            else:
                spin(ctx, t, r, GRIDS[gi], True, "x", f"history {ops} at step {s}")
                phases(ctx, z, r, LOOPS["n3"], KB["one"], 0.0, 2, f"history {ops} at step {s}")
            ctx.state("hist", ops[:s + 1])
            ctx.step(1)
        for comp in "xyz":
            spin(ctx, t, r, GRIDS[gi], True, comp, f"after history {ops}")
        phases(ctx, z, r, LOOPS["n8"], KB["one"], 0.0, 2, f"after history {ops}")
        ctx.close(t.k_cart, GRIDS[gi] @ (2 * PI * np.linalg.inv(r.lat).T), f"k_cart after history {ops}", 1e-9)
    ctx.trace(f"histories beginning with {first}")


def do_small(ctx, q):
    """Small changes of the grid and of the model between evaluations."""
    d = 10.0 ** -q
    for op in itertools.product(range(7), repeat=2):
        r = spinmodel("g4", True)
        c = ref.build_cell(tb, r)
        ks = GRIDS[1].copy() + 0.011
        t = tb.SpinTexture(c, ks.copy(), echo_details=False)
        z = tb.Z2(c, num_occ=2, echo_details=False)
        spin(ctx, t, r, ks, True, "x", "before small changes", 1e-9)
        phases(ctx, z, r, LOOPS["n3"], KB["one"], 0.0, 2, "before small changes")
        for s, o in enumerate(op):
            if o == 0:
                ks[1, 0] += d
                t.k_grid = ks.copy()
            elif o == 1:
                ks[-1, 1] -= d
                t.k_grid = ks.copy()
            elif o == 2:
                ks = ks[::-1].copy()
                t.k_grid = ks.copy()
            elif o == 3:
                for x in (r, c):
                    x.set_orbital(1, energy=0.3 + d * (s + 1))
            elif o == 4:
                e = r.get_hopping((1, 0, 0), 0, 3) or 0.0
                for x in (r, c):
                    x.add_hopping((1, 0, 0), 0, 3, e + d * 1j)
            elif o == 5:
                ks[0, 1] += d
                t.k_grid[0, 1] += d
            else:
                for x in (r, c):
                    x.add_hopping((2 + s, 1, 0), 2, 1, d)
            for comp in "xyz":
                spin(ctx, t, r, ks, True, comp, f"after changes {op[:s + 1]} of {d}", 1e-9)
            phases(ctx, z, r, LOOPS["n3"], KB["one"], 0.0, 2, f"after changes {op[:s + 1]} of {d}")
        ctx.state("small", q, op)
    ctx.trace(f"changes of {d}")


def do_bad(ctx):
    for m in M:
        c = ref.build_cell(tb, M[m])
        for occ in (0, -1, M[m].n + 1, 100):
            ctx.raises(lambda: tb.Z2(c, num_occ=occ, echo_details=False), f"{m}: {occ} occupied bands", ValueError)
    ctx.step(4 * len(M))
    ctx.state("bad")
    ctx.trace("refusals")


def do_default(ctx):
    r = M["g2"]
    z = tb.Z2(ref.build_cell(tb, r), num_occ=1, echo_details=False)
    kb, p = z.calc_phases()
    ctx.close(kb, np.linspace(0, 0.5, 100), "default kb", 1e-12)
    for i in (0, 3, 50, 99):
        w = wilson(r, np.linspace(-0.5, 0.5, 200), kb[i], 0.0, 1)
        if w is not None:
            match(ctx, p[i], w, f"default loops at {kb[i]}")
    ctx.step(1)
    ctx.state("default")
    ctx.trace("default loops")
