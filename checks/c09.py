"""C09: Peierls and Bloch phases: all gauges x fields x loops of bonds of a family of samples."""
import itertools
import math

import numpy as np
import tbplas as tb

from lib import ref

PHI0 = 4135.6672          # h/e in T nm^2
TOL = 2e-6


def sheet(name):
    """Reference sample of the family."""
    if name.startswith("tri"):
        lat, pos = [[1.0, 0, 0], [0.4, 0.9, 0], [0, 0, 1.0]], [(0.1, 0.2, 0.1)]
        hops = [((1, 0), 0, 0, -1.0), ((0, 1), 0, 0, 1j), ((1, -1), 0, 0, 0.5 - 0.5j)]
        dim = (3, 3, 1)
    elif name.startswith("hex"):
        lat = [[1.2, 0, 0], [0.6, 1.03923, 0], [0, 0, 1.0]]
        pos = [(1 / 3, 1 / 3, 0), (2 / 3, 2 / 3, 0.3)]
        hops = [((0, 0), 0, 1, -1.0), ((1, 0), 1, 0, 1.5), ((0, 1), 1, 0, 0.5j)]
        dim = (3, 3, 1)
    elif name.startswith("box"):
        lat, pos = [[0.8, 0.1, 0.1], [-0.2, 0.7, 0], [0.3, 0.1, 0.9]], [(0.1, 0.2, 0.1)]
        hops = [((1, 0, 0), 0, 0, 1.0), ((0, 1, 0), 0, 0, 1.0), ((0, 0, 1), 0, 0, 1.0), ((1, 1, 0), 0, 0, 1j)]
        dim = (3, 3, 3)
    else:                                       # rectangular, for periodic directions
        lat, pos = [[1.1, 0, 0], [0, 0.9, 0], [0, 0, 1.0]], [(0.1, 0.2, 0.1), (0.6, 0.7, 0)]
        hops = [((0, 0), 0, 1, -1.0), ((1, 0), 0, 0, 1.0), ((0, 1), 0, 0, 1j), ((1, 1), 1, 0, 0.5)]
        dim = (3, 3, 1)
    if "L" in name:
        dim = {"tri": (11, 9, 1), "hex": (10, 8, 1), "box": (6, 5, 4), "rec": (9, 10, 1)}[name[:3]]
    pbc = {"recx": (1, 0, 0), "recy": (0, 1, 0), "recLx": (1, 0, 0), "recLy": (0, 1, 0)}.get(name, (0, 0, 0))
    org = (0, 0, 0) if name[-1] == "0" else (3.0, -2.0, 0.5)
    r = ref.Cell(lat, org, 1.0)
    for i, p in enumerate(pos):
        r.add_orbital(p, 0.3 * i)
    for h in hops:
        r.add_hopping(*h)
    s = ref.SC(r, dim, pbc, mod="shift" if name[-1] == "s" else None)
    if name[-1] == "v":
        s.vac = {(1, 1, 0, 0)}
    if name[-1] == "2":                         # two layers
        r2 = r.clone()
        r2.origin = r2.origin + np.array([0.3, 0.2, 1.0])
        s2 = ref.SC(r2, dim, pbc)
        link = {((0, 0, 0), i, i): 0.2 for i in range(s.n)}
        link.update({((0, 0, 0), i, i + 1): 0.1j for i in range(s.n - 1)})
        return ref.Smp([s, s2], [(0, 1, link)])
    return ref.Smp([s])


OPEN = ["tri0", "tri1", "tris", "triv", "tri2", "hex0", "hex1", "hexs", "hexv", "hex2", "box1", "rec0", "rec1"]
GAUGES = {n: (0, 1, 2) for n in OPEN}
GAUGES["recx"] = (0,)
GAUGES["recy"] = (1,)
LOPEN = ["triL1", "hexL2", "hexLv", "boxL1", "recL0"]
GAUGES.update({n: (0, 1, 2) for n in LOPEN})
GAUGES["recLx"] = (0,)
GAUGES["recLy"] = (1,)
FIELDS = [0.0, 1.0, -1.0, 37.5, -250.0, 1500.0, 8000.0]


def build(m):
    cells = {}
    scs = []
    for s in m.scs:
        if id(s.cell) not in cells:
            cells[id(s.cell)] = ref.build_cell(tb, s.cell)
        scs.append(ref.build_sc(tb, cells[id(s.cell)], s))
    return ref.build_sample(tb, scs, m)


def arrays(smp):
    return (np.array(smp.hop_i), np.array(smp.hop_j), np.array(smp.hop_v), np.array(smp.dr))


def angle(x):
    """Phase into (-pi, pi]."""
    return math.atan2(math.sin(x), math.cos(x))


def loops(i, j, dr, longest):
    """All closed loops of bonds up to a length, as lists of (bond, direction)."""
    adj = {}
    for b in range(len(i)):
        adj.setdefault(int(i[b]), []).append((b, 1, int(j[b])))
        adj.setdefault(int(j[b]), []).append((b, -1, int(i[b])))
    out = []

    def rec(start, at, path, used, seen, disp):
        for b, s, to in adj.get(at, ()):
            if b in used or to < start:
                continue
            d = disp + s * dr[b]
            if to == start and len(path) >= 2:
                if np.linalg.norm(d) < 1e-6 and path[0][0] < b:   # each loop in one orientation
                    out.append(path + [(b, s)])
            elif to not in seen and len(path) + 1 < longest:
                rec(start, to, path + [(b, s)], used | {b}, seen | {to}, d)
    for v in adj:
        rec(v, v, [], frozenset(), {v}, np.zeros(3))
    return out


def vec(g, x, y):
    return {0: (y, 0.0), 1: (0.0, -x), 2: (0.5 * y, -0.5 * x)}[g]


BOUNDS = {"quick": "13 open samples x 3 gauges and 2 periodic ones x 7 fields x all loops of at most 4 (6 for honeycomb) "
                   "bonds; 7 samples with up to 240 sites x 2 fields; all histories of 3 field, k-point and scaling operations on 3 samples",
          "thorough": "all loops of at most 6 bonds; histories of 4 operations",
          "assumptions": ["flux quantum 4135.667 T nm^2 to a relative accuracy of 2e-6"]}
OPS = ["g0", "g1", "g2", "neg", "k1", "k2", "kn", "r2", "ra", "eng", "read"]


def cases(tier):
    for n in list(OPEN) + ["recx", "recy"]:
        for g in GAUGES[n]:
            for b in FIELDS:
                yield ["F", n, g, b, 6 if tier == "thorough" or n.startswith("hex") else 4]
    for n in LOPEN + ["recLx", "recLy"]:
        for g in GAUGES[n]:
            for b in (37.5, -8000.0):
                yield ["F", n, g, b, 6 if n.startswith("hex") else 4]
    for n in ("tri1", "hex2", "recx"):
        for a in OPS:
            yield ["H", n, [a], 3 if tier == "quick" else 4]
    for n in OPEN + ["recx", "recy"] + LOPEN[:2] + ["recLx"]:
        yield ["K", n]


def run(case, ctx):
    if case[0] == "F":
        _, name, g, field, longest = case
        m = sheet(name)
        smp = build(m)
        smp.init_hop()
        i, j, v0, dr = arrays(smp)
        smp.set_magnetic_field(field, gauge=g)
        i1, j1, v, dr1 = arrays(smp)
        what = f"{name} gauge {g} field {field}"
        ctx.step()
        ctx.state(name, g, field)
        ctx.equal((i1.tolist(), j1.tolist()), (i.tolist(), j.tolist()), what + " indices")
        ctx.close(dr1, dr, what + " distances", 0)
        ctx.close(np.abs(v), np.abs(v0), what + " moduli", 1e-10)
        if field == 0:
            ctx.close(v, v0, what + " zero field", 1e-12)
        # phase of the vector potential along the straight bond
        p = m.pos()
        ph = np.zeros(len(i))
        for b in range(len(i)):
            mid = p[i[b]] + 0.5 * dr[b]
            if name in ("recx", "recy", "recLx", "recLy"):
                # only the component which the gauge may use is unwrapped
                mid = 0.5 * (p[i[b]] + p[j[b]])
            a = vec(g, mid[0], mid[1])
            ph[b] = 2 * math.pi / PHI0 * field * (a[0] * dr[b][0] + a[1] * dr[b][1])
            if abs(v0[b]) > 0:
                d = angle(np.angle(v[b] / v0[b]) - ph[b])
                ctx.true(abs(d) < TOL * (1 + abs(ph[b])), lambda: f"{what} phase of bond {i[b]}-{j[b]}: "
                         f"{np.angle(v[b] / v0[b])}, want {ph[b]}")
        # flux through every loop
        num = 0
        for lp in loops(i, j, dr, longest):
            tot, x, area = 0.0, np.zeros(3), 0.0
            for b, s in lp:
                tot += s * np.angle(v[b] / v0[b])
                y = x + s * dr[b]
                area += 0.5 * (x[0] * y[1] - x[1] * y[0])
                x = y
            want = -2 * math.pi * field * area / PHI0
            ctx.true(abs(angle(tot - want)) < TOL * (1 + abs(want)) * 10,
                     lambda: f"{what} flux phase {tot} of loop {lp}, want {want}")
            num += 1
        ctx.true(num > 0, "no loops")
        ctx.step(num)
        # opposite field: conjugate phases; both together: nothing
        s2 = build(m)
        s2.set_magnetic_field(-field, gauge=g)
        ctx.close(np.array(s2.hop_v) * v, v0 * v0, what + " opposite field", 1e-9)
        s2.set_magnetic_field(field, gauge=g)
        ctx.close(s2.hop_v, v0, what + " field and its opposite", 1e-9)
        h = smp.build_ham_csr().toarray()
        ctx.close(h, h.conj().T, what + " not Hermitian", 1e-12)
        if name in OPEN + LOPEN:
            s3 = build(m)
            s3.set_magnetic_field(field, gauge=(g + 1) % 3)
            ctx.close(np.linalg.eigvalsh(s3.build_ham_csr().toarray()), np.linalg.eigvalsh(h),
                      what + " spectrum depends on gauge", 1e-8)
        ctx.trace(f"{what}: {num} loops")
    elif case[0] == "K":
        name = case[1]
        m = sheet(name)
        rec = 2 * math.pi * np.linalg.inv(m.scs[0].lat).T
        for k in itertools.product((0, 0.5, -0.3, 1.0, 0.171) if "L" not in name else (0.4, -0.13), repeat=3):
            smp = build(m)
            smp.init_hop()
            i, j, v0, dr = arrays(smp)
            kc = np.array(k, float) @ rec
            smp.set_k_point(np.array(k, float))
            ctx.close(smp.hop_v, v0 * np.exp(1j * (dr @ kc)), f"{name} k {k}", 1e-9)
            smp.init_orb_eng()
            ctx.close(smp.build_ham_csr().toarray(), m.ham(k), f"{name} Hamiltonian at k {k}", 1e-9)
            smp.set_k_point(-np.array(k, float))
            ctx.close(smp.hop_v, v0, f"{name} k and -k", 1e-9)
            ctx.step(2)
            ctx.state("K", name, k)
        ctx.trace(f"{name} k-points")
    else:
        _, name, pre, deep = case
        m = sheet(name)
        p = m.pos()
        rec = 2 * math.pi * np.linalg.inv(m.scs[0].lat).T

        def rc(seq):
            smp = build(m)
            ph, rs = [], 1.0
            for o in seq:
                if o[0] == "g":
                    smp.set_magnetic_field(300.0, gauge=int(o[1]))
                    ph.append(("m", int(o[1]), 300.0))
                elif o == "neg":
                    smp.set_magnetic_field(-700.0)
                    ph.append(("m", 0, -700.0))
                elif o[0] == "k":
                    k = {"k1": (0.3, 0, 0), "k2": (-0.1, 0.45, 0.2), "kn": (-0.3, 0, 0)}[o]
                    smp.set_k_point(np.array(k))
                    ph.append(("k", np.array(k) @ rec))
                elif o == "r2":
                    smp.rescale_ham(2.0)
                    rs = 2.0
                elif o == "ra":
                    smp.rescale_ham()
                    rs = smp.rescale
                elif o == "eng":
                    smp.init_orb_eng()
                else:
                    smp.build_ham_csr()
                ctx.step()

            def phase(i, j, d):
                x = 1.0
                for t in ph:
                    if t[0] == "k":
                        x = x * np.exp(1j * float(t[1] @ d))
                    else:
                        mid = 0.5 * (p[i] + p[j])
                        a = vec(t[1], mid[0], mid[1])
                        x = x * np.exp(2j * math.pi / 4135.666734 * t[2] * (a[0] * d[0] + a[1] * d[1]))
                return x
            ctx.case = ["H", name, list(seq), len(seq)]
            ctx.state("H", name, tuple(seq))
            terms = [(i, j, v * phase(i, j, d), d) for i, j, v, d in m.terms()]
            smp.init_hop()
            ref.check_terms(ctx, (smp.hop_i, smp.hop_j, np.asarray(smp.hop_v) * rs, smp.dr), ref.unzip(terms),
                            f"{name} after {seq}", 1e-5)
            ctx.trace(f"{name} {seq}")
            if len(seq) < deep:
                for o in OPS:
                    rc(seq + [o])
        rc(pre)
