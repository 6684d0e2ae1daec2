"""C11: cell transformations: all dimensions, integer lattice matrices, angles and mergings of a family of cells."""
import itertools
import math
import warnings

import numpy as np
import tbplas as tb

from lib import ref

GEN = [[0.25, 0.02, 0.01], [0.11, 0.23, -0.03], [0.02, -0.05, 0.31]]
ORG = [0.4, -0.7, 0.2]
K = [(0.0, 0.0, 0.0), (0.17, -0.31, 0.23), (0.5, 0.5, 0.0)]


def model(name):
    if name == "one":                       # one orbital at the corner, 3D bonds
        r = ref.Cell(GEN, (0, 0, 0), 1.0)
        r.add_orbital((0, 0, 0), 0.3, "a")
        for h in [((1, 0, 0), 0, 0, -1.0), ((0, 1, 0), 0, 0, 0.5j), ((1, -1, 1), 0, 0, 0.25 - 0.5j), ((0, 1, 1), 0, 0, 3e-7)]:
            r.add_hopping(*h)
    elif name == "hex":                     # honeycomb with second neighbours
        r = ref.Cell([[0.246, 0, 0], [0.123, 0.213042, 0], [0, 0, 1.0]], (0, 0, 0), 1.0)
        r.add_orbital((0, 0, 0), 0.1, "a")
        r.add_orbital((1 / 3, 1 / 3, 0), -0.2, "b")
        for h in [((0, 0), 0, 1, -2.7), ((1, 0), 1, 0, -2.6), ((0, 1), 1, 0, -2.5 + 0.1j), ((1, 0), 0, 0, 0.1j),
                  ((0, 1), 1, 1, -0.2j), ((1, -1), 0, 0, 0.07)]:
            r.add_hopping(*h)
    elif name == "out":                     # orbitals out of the cell, coinciding ones, long bonds, origin
        r = ref.Cell(GEN, ORG, 1.0)
        r.add_orbital((-0.4, 1.3, 0.1), 1.0, "a")
        r.add_orbital((0.5, 0.25, -1.2), 2.0, "b")
        r.add_orbital((0.5, 0.25, -1.2), -2.0, "c")      # same place as b
        for h in [((0, 0, 0), 0, 1, 1.0), ((2, 0, 0), 0, 2, 1j), ((-1, 1, 0), 1, 2, 0.5), ((0, 0, 0), 1, 2, 0.75j),
                  ((0, -2, 1), 2, 2, -0.3), ((1, 1, 1), 2, 0, 0.2 + 0.1j)]:
            r.add_hopping(*h)
    elif name == "far":                     # orbitals several cells away
        r = ref.Cell(GEN, ORG, 1.0)
        r.add_orbital((-3.4, 2.6, 0.1), 1.0, "a")
        r.add_orbital((4.45, -2.75, 1.2), 2.0, "b")
        for h in [((0, 0, 0), 0, 1, 1.0), ((-8, 5, -1), 1, 0, 1j), ((7, -6, -1), 0, 1, 0.5), ((0, 1, 0), 0, 0, 0.75)]:
            r.add_hopping(*h)
    elif name == "bare":                    # orbitals without bonds
        r = ref.Cell(GEN, ORG, 1.0)
        r.add_orbital((0.2, 0.7, 0.0), 1.0, "a")
        r.add_orbital((0.9, 0.6, 0.45), 2.0, "b")
    else:                                   # trigonal chain with dangling orbital
        r = ref.Cell(GEN, ORG, 1.0)
        for i, p in enumerate([(0, 0, 0), (0.35, 0.1, 0.6), (0.7, 0.8, 0.2), (0.15, 0.55, 0.85)]):
            r.add_orbital(p, 0.5 * i, "abcd"[i])
        for h in [((0, 0, 0), 0, 1, 1.0), ((0, 0, 0), 1, 2, 0.5), ((1, 0, 0), 2, 0, 0.25j), ((0, 1, 0), 0, 0, 0.3),
                  ((0, 0, 1), 0, 3, 0.11), ((0, 0, 0), 1, 3, -2e-6j), ((1, 0, 0), 3, 3, 5e-4)]:
            r.add_hopping(*h)
    return r


MODELS = ["one", "hex", "out", "bare", "big"]


def classes(mat):
    """Representative function of integer vectors modulo the rows of mat."""
    inv = np.linalg.inv(np.array(mat, float))

    def rep(t):
        f = np.array(t, float) @ inv
        f = f - np.floor(f + 1e-9)
        return tuple(int(x) for x in np.rint(f @ np.array(mat, float)))
    return rep


def folded(r, mat, k):
    """Eigenvalues of the cell with lattice mat @ lat at its k."""
    m = np.array(mat, float)
    inv = np.linalg.inv(m)
    det = int(round(abs(np.linalg.det(m))))
    reach = int(np.abs(m).sum())
    seen, ev = set(), []
    for g in itertools.product(range(-reach, reach + 1), repeat=3):
        q = (np.array(g) @ inv.T)
        q = q - np.floor(q + 1e-9)
        key = tuple(np.round(q, 6) + 0.0)
        if key not in seen:
            seen.add(key)
            ev.extend(r.eig((np.array(k) + g) @ inv.T))
            if len(seen) == det:
                break
    assert len(seen) == det
    return np.sort(np.array(ev))


def clear(r, mat, delta):
    """Whether no orbital falls on the border of the new cell shifted by delta."""
    inv = np.linalg.inv(np.array(mat, float))
    reach = range(int(np.abs(mat).sum(axis=0).max()) + 1)
    rn = np.array(list(itertools.product(reach, repeat=3)), float)
    for p, e, l in r.orbs:
        x = (rn + np.array(p)) @ inv + delta
        if np.abs(x - np.rint(x)).min() < 1e-7:
            return False
    return True


def check_multiple(ctx, c, r, mat, what, spectrum=True):
    """c is r in the lattice mat @ r.lat."""
    m = np.array(mat, float)
    det = int(round(abs(np.linalg.det(m))))
    rep = classes(mat)
    ctx.close(c.lat_vec, m @ r.lat, what + " lattice", 1e-9)
    ctx.equal(c.num_orb, det * r.n, what + " number of orbitals")
    ctx.equal(c.num_hop, det * len(r.hops), what + " number of terms")
    ctx.close(c.extended, det * r.extended, what + " extended", 1e-9)
    lab = {o[2]: i for i, o in enumerate(r.orbs)}
    pos, where, seen = c.orb_pos_nm, [], set()
    for i in range(c.num_orb):
        o = c.get_orbital(i)
        ctx.true(o.label in lab, f"{what}: unknown label {o.label}")
        q = lab[o.label]
        f = r.frac(pos[i]) - np.array(r.orbs[q][0])
        t = np.rint(f)
        ctx.close(f, t, f"{what}: orbital {i} is not at an image of orbital {q}", 1e-7)
        ctx.close(o.energy, r.orbs[q][1], f"{what}: energy of orbital {i}", 1e-12)
        t = tuple(int(x) for x in t)
        seen.add((q, rep(t)))
        where.append((q, t))
    ctx.equal(len(seen), det * r.n, what + ": distinct orbitals")
    got = {}
    im = np.array(mat)
    for rn, d in c.hoppings.items():
        for (i, j), e in d.items():
            (a, ta), (b, tb_) = where[i], where[j]
            sh = tuple(int(x) for x in np.array(tb_) + np.rint(np.array(rn) @ im).astype(int) - np.array(ta))
            k, cj = ref.canon_key(sh, a, b)
            at = rep(tb_) if cj else rep(ta)
            ctx.true((at, k) not in got, lambda: f"{what}: bond {k} at {at} twice")
            got[(at, k)] = complex(e).conjugate() if cj else complex(e)
    cells = {s[1] for s in seen}
    ctx.equal(len(got), det * len(r.hops), what + " bonds")
    for k, e in r.hops.items():
        for t in cells:
            ctx.true((t, k) in got, lambda: f"{what}: bond {k} at cell {t} is missing")
            ctx.close(got[(t, k)], e, f"{what}: amplitude of bond {k} at {t}", 1e-10)
    if spectrum and c.num_hop:
        for k in K[:2]:
            h = np.zeros((c.num_orb, c.num_orb), complex)
            c.sync_array()
            c.set_ham_dense(np.array(k, float), h, 1)
            ctx.close(np.linalg.eigvalsh(h), folded(r, mat, k), f"{what}: spectrum at {k}", 1e-7)


def state(c):
    return (c.num_orb, c.num_hop, c.lat_vec.tolist(), c.origin.tolist(), c.extended,
            [tuple(c.get_orbital(i)) for i in range(c.num_orb)], c.hop_ind.tolist(), c.hop_eng.tolist(),
            c.orb_pos_nm.tolist() if c.num_orb else [])


def mats2(b):
    for a in itertools.product(range(-b, b + 1), repeat=4):
        if a[0] * a[3] - a[1] * a[2] != 0:
            yield [[a[0], a[1], 0], [a[2], a[3], 0], [0, 0, 1]]


def mats3(entries):
    for a in itertools.product(entries, repeat=9):
        m = [list(a[:3]), list(a[3:6]), list(a[6:])]
        if abs(np.linalg.det(m)) > 0.5:
            yield m


BOUNDS = {"quick": "extending: 6 cells x all dimensions up to 4x3x3 (4 larger ones, 2-vectors and invalid ones); reshaping: 5 cells x all "
                   "non-singular 2x2 matrices with entries -2..2 and 'one','out' x all non-singular 3x3 matrices with entries -1..1 "
                   "with at most 6 non-zero entries; 6 matrices with entries up to 10; compositions of two; spirals: 3 cells x 8 angles x 3 centres x 3 shifts, all pairs "
                   "of angles; orbitals several cells away: all 2x2 matrices with entries -1..1 and every 29th 3x3; merging: all pairs and triples of 3 cells x all sets of at most 2 connections out of 8",
          "thorough": "all 3x3 matrices with entries -1..1 for all cells, 2x2 with entries -3..3",
          "assumptions": ["lattice matrices of integers, orbitals not within 1e-9 of the border shifted by delta"]}
CHUNK = 4
LARGE = [[[7, -3, 0], [2, 5, 0], [0, 0, 1]], [[3, 4, 0], [-4, 7, 0], [0, 0, 2]], [[3, 1, 2], [-1, 4, 1], [2, -2, 3]],
         [[5, 0, 0], [0, 0, 4], [0, -3, 0]], [[-6, 1, 0], [1, 6, 0], [0, 0, -1]], [[10, 3, 0], [-3, 7, 0], [0, 0, 1]]]


def cases(tier):
    for n in MODELS:
        for d in itertools.product(range(1, 5), range(1, 4), range(1, 4)):
            yield ["E", n, list(d)]
        for d in ((7, 5, 2), (1, 11, 1), (12, 10, 1), (2, 1, 9)):
            yield ["E", n, list(d)]
        yield ["EX", n]
    for n in MODELS:
        b = 2 if tier == "quick" else 3
        for m in mats2(b):
            yield ["R", n, m]
    for n in MODELS:
        for m in LARGE:
            yield ["R", n, m]
    for n in (("one", "out") if tier == "quick" else MODELS):
        for m in mats3((-1, 0, 1)):
            if tier == "thorough" or np.count_nonzero(m) <= 6:
                yield ["R", n, m]
    for m in list(mats2(1)) + list(mats3((-1, 0, 1)))[::29] + [[[2, 1, 0], [-1, 2, 0], [0, 0, 1]], [[1, 0, 1], [0, 2, 0], [-1, 1, 1]]]:
        yield ["R", "far", m]
    for d in itertools.product(range(1, 4), range(1, 4), (1, 2)):
        yield ["E", "far", list(d)]
    for n in MODELS:
        for m in ([[2, 1, 0], [-1, 2, 0], [0, 0, 1]], [[1, 0, 1], [0, 2, 0], [-1, 1, 1]], [[3, -1, 0], [1, 1, 0], [0, 0, 2]]):
            for d in ((1, 1, 1), (2, 1, 1), (1, 2, 2), (2, 2, 1)):
                yield ["C", n, m, list(d)]
    for n in ("one", "hex", "out"):
        for a in (0.0, 0.1, -0.3, math.pi / 3, math.pi / 2, -math.pi, 2.5, 7.0):
            yield ["S", n, a]
    for names in itertools.chain(itertools.product(("hex", "out", "big"), repeat=2),
                                 [("hex", "out", "big"), ("big", "big", "hex"), ("hex",), ("out", "bare"), ("bare", "bare")]):
        yield ["M", list(names)]
    yield ["MX"]


def run(case, ctx):
    kind = case[0]
    if kind == "E":
        r = model(case[1])
        d = case[2]
        r.extended = 1.0 if sum(d) % 2 else 2.0
        c = ref.build_cell(tb, r)
        before = state(c)
        e = tb.extend_prim_cell(c, tuple(d))
        ctx.step()
        ctx.state("E", case[1], tuple(d))
        check_multiple(ctx, e, r, np.diag(d).tolist(), f"extend {case[1]} {d}", np.prod(d) <= 12)
        ctx.equal(state(c), before, f"source of extend {case[1]} {d}")
        ctx.close(e.origin, r.origin, "origin", 1e-9)
        # the result is independent of the source
        e.set_orbital(0, energy=99.0)
        ctx.equal(state(c), before, "source after the extended cell was edited")
        if d[2] == 1:
            e2 = tb.extend_prim_cell(c, tuple(d[:2]))
            check_multiple(ctx, e2, r, np.diag(d).tolist(), f"extend {case[1]} {d[:2]}", False)
        ctx.trace(f"extend {case[1]} {d}")
    elif kind == "EX":
        r = model(case[1])
        c = ref.build_cell(tb, r)
        before = state(c)
        for d in itertools.product((-1, 0, 1), repeat=3):
            if min(d) < 1:
                ctx.raises(lambda: tb.extend_prim_cell(c, d), f"extend by {d}")
        for d in ((2,), (2, 2, 2, 2), ()):
            ctx.raises(lambda: tb.extend_prim_cell(c, d), f"extend by {d}")
        for m in (np.eye(2), np.zeros((3, 2)), np.eye(4)):
            ctx.raises(lambda: tb.reshape_prim_cell(c, m), f"reshape by {m.shape}")
        ctx.equal(state(c), before, "source")
        ctx.step(32)
        ctx.trace("refused")
    elif kind == "R":
        r = model(case[1])
        m = case[2]
        r.extended = 1.5
        c = ref.build_cell(tb, r)
        before = state(c)
        kw = {} if clear(r, m, 1e-2) else {"delta": 0.0137137}
        e = tb.reshape_prim_cell(c, np.array(m, float), **kw)
        ctx.step()
        ctx.state("R", case[1], str(m))
        check_multiple(ctx, e, r, m, f"reshape {case[1]} by {m}")
        ctx.equal(state(c), before, f"source of reshape {case[1]} by {m}")
        ctx.close(e.origin, r.origin, "origin", 1e-9)
        if sum(map(abs, m[0])) == 2:
            e2 = tb.make_hetero_layer(c, np.array(m, float) @ r.lat)
            check_multiple(ctx, e2, r, m, f"hetero layer {case[1]} by {m}", False)
            e2 = tb.make_hetero_layer(c, np.array(m, float) @ r.lat, delta=0.07, pos_tol=1e-3)
            check_multiple(ctx, e2, r, m, f"hetero layer {case[1]} by {m} with options", False)
            e3 = tb.reshape_prim_cell(c, np.array(m, float), delta=0.07)
            check_multiple(ctx, e3, r, m, f"reshape {case[1]} by {m} delta 0.07", False)
            e4 = tb.reshape_prim_cell(c, np.array(m, float), pos_tol=1e-3)
            check_multiple(ctx, e4, r, m, f"reshape {case[1]} by {m} pos_tol 1e-3", False)
        ctx.trace(f"reshape {case[1]} by {m}")
    elif kind == "C":
        _, n, m, d = case
        r = model(n)
        c = ref.build_cell(tb, r)
        a = tb.extend_prim_cell(tb.reshape_prim_cell(c, np.array(m, float)), tuple(d))
        check_multiple(ctx, a, r, (np.diag(d) @ np.array(m)).tolist(), f"extend by {d} of reshape by {m} of {n}")
        b = tb.reshape_prim_cell(tb.extend_prim_cell(c, tuple(d)), np.array(m, float))
        check_multiple(ctx, b, r, (np.array(m) @ np.diag(d)).tolist(), f"reshape by {m} of extend by {d} of {n}")
        # trimming an extended cell
        t = tb.extend_prim_cell(c, tuple(d))
        rt = ref.Cell(t.lat_vec, t.origin, 1.0)
        rt.extended = float(t.extended)
        for i in range(t.num_orb):
            o = t.get_orbital(i)
            rt.add_orbital(o.position, o.energy, o.label)
        for row, v in zip(t.hop_ind, t.hop_eng):
            rt.add_hopping(row[:3], row[3], row[4], v)
        t.trim()
        rt.trim()
        ref.check_cell(ctx, t, rt, what=f"trimmed extend by {d} of {n}", deep=False)
        ctx.step(5)
        ctx.state("C", n, str(m), tuple(d))
        ctx.trace(f"compositions of {n}, {m}, {d}")
    elif kind == "S":
        _, n, ang = case
        for cen in ((0, 0, 0), (0.3, -0.2, 0.5), (-1.0, 2.0, 0.0)):
            for sh in (0.0, 0.35, -1.2):
                for second in (None, -ang, 0.7):
                    r = model(n)
                    c = ref.build_cell(tb, r)
                    before = state(c)
                    pos, lat = r.pos_nm(), r.lat.copy()
                    bl = np.linalg.norm(c.dr_nm, axis=1)
                    for x in [ang] + ([second] if second is not None else []):
                        tb.spiral_prim_cell(c, angle=x, center=np.array(cen, float), shift=sh)
                        rot = np.array([[math.cos(x), -math.sin(x), 0], [math.sin(x), math.cos(x), 0], [0, 0, 1]])
                        pos = (pos - np.array(cen)) @ rot.T + np.array(cen) + np.array([0, 0, sh])
                        lat = lat @ rot.T
                        ctx.step()
                    what = f"spiral {n} {ang} {second} centre {cen} shift {sh}"
                    ctx.state(what)
                    ctx.close(c.orb_pos_nm, pos, what + " positions", 1e-8)
                    ctx.close(c.lat_vec, lat, what + " lattice", 1e-8)
                    ctx.close(np.linalg.norm(c.dr_nm, axis=1), bl, what + " bond lengths", 1e-8)
                    after = state(c)
                    ctx.equal(after[6:8], before[6:8], what + " terms")
                    ctx.equal([(o[1], o[2]) for o in after[5]], [(o[1], o[2]) for o in before[5]], what + " energies and labels")
                    for k in K:
                        h = np.zeros((r.n, r.n), complex)
                        c.sync_array()
                        c.set_ham_dense(np.array(k), h, 1)
                        ctx.close(np.linalg.eigvalsh(h), r.eig(k), what + " spectrum", 1e-8)
                    ctx.trace(what)
    elif kind == "M":
        merge(case[1], ctx)
    else:
        merge_refused(ctx)



LINKS = [((0, 0, 0), 0, 0, 1.5), ((1, 0, 0), 0, 1, 0.5j), ((0, -1, 1), 1, 0, 0.3 - 0.2j), ((0, 0, 0), 1, 1, -1.0)]


def parts(names):
    """Reference cells over one lattice, with different origins."""
    out = []
    for i, n in enumerate(names):
        r = model(n)
        r.lat = np.array(GEN)
        r.origin = np.array(ORG) * i + 0.1
        r.orbs = [(p, e + i, l + str(i)) for p, e, l in r.orbs]
        out.append(r)
    return out


def union(rs, links):
    m = ref.Cell(rs[0].lat, rs[0].origin, 1.0)
    st = []
    for r in rs:
        o = m.n
        st.append(o)
        for (p, e, l), q in zip(r.orbs, r.pos_nm()):
            m.add_orbital(m.frac(q), e, l)
        for (rn, i, j), e in r.hops.items():
            m.add_hopping(rn, i + o, j + o, e)
    for a, b, (rn, i, j, e) in links:
        m.add_hopping(rn, i + st[a], j + st[b], e)
    m.extended = rs[0].extended
    return m


def merge(names, ctx):
    n = len(names)
    every = [(a, b, l) for a in range(n) for b in range(n) if a != b and abs(a - b) < 3 for l in LINKS]
    sets = [()] + [(x,) for x in every]
    sets += list(itertools.combinations(every, 2)) if n == 2 else []
    for ls in sets:
        for mode in (("objects", "one", "locked") if len(ls) else ("plain", "locked")):
            rs = parts(names)
            for r in rs:
                r.extended = 2.0 if len(ls) == 1 else 1.0
            cs = [ref.build_cell(tb, r) for r in rs]
            hops, made = [], {}
            for a, b, (rn, i, j, e) in ls:
                if mode == "one" and (a, b) in made:
                    h = made[(a, b)]
                else:
                    h = made[(a, b)] = tb.PCInterHopping(cs[a], cs[b])
                    hops.append(h)
                h.add_hopping(rn, i, j, e)
            if mode == "locked":
                for c in cs:
                    tb.SuperCell(c, (6, 6, 6)) if c.num_hop else None
            before = [state(c) for c in cs]
            what = f"merge {names} with {ls} {mode}"
            m = tb.merge_prim_cell(*cs, *hops) if mode != "one" else tb.merge_prim_cell(*(hops[:1] + cs + hops[1:]))
            ctx.step()
            ctx.state(what)
            ctx.case = ["M", names]
            u = union(rs, ls if mode != "one" else sorted(ls, key=lambda x: list(made).index((x[0], x[1]))))
            if m.num_hop or u.hops:
                ref.check_cell(ctx, m, u, what=what, deep=len(ls) < 2)
            else:
                ctx.close(m.orb_pos_nm, u.pos_nm(), what, 1e-9)
                ctx.close(m.orb_eng, u.eng(), what, 1e-9)
            ctx.equal([state(c) for c in cs], before, what + ": sources")
            m.set_orbital(0, energy=5.5)
            ctx.equal([state(c) for c in cs], before, what + ": sources after editing the merged cell")
            ctx.trace(what)


def merge_refused(ctx):
    rs = parts(["hex", "out"])
    a, b = (ref.build_cell(tb, r) for r in rs)
    ctx.raises(lambda: tb.merge_prim_cell(), "merge nothing")
    ctx.raises(lambda: tb.merge_prim_cell(a, 3), "merge an integer")
    for i in range(3):
        for j in range(3):
            for d in (1e-3, -1e-3, 0.1):
                r2 = rs[1].clone()
                r2.lat[i, j] += d
                c2 = ref.build_cell(tb, r2)
                for args in ((a, c2), (c2, a), (a, b, c2), (c2, a, b), (a, c2, b)):
                    ctx.raises(lambda: tb.merge_prim_cell(*args), f"merge lattices differing by {d} at {i},{j}")
                    ctx.step()
                    ctx.state("mismatch", i, j, d, len(args))
    ex = ref.build_cell(tb, rs[1])
    for x, y in ((a, ex), (ex, a)):
        h = tb.PCInterHopping(x, y)
        h.add_hopping((0, 0, 0), 0, 0, 1.0)
        ctx.raises(lambda: tb.merge_prim_cell(a, b, h), "merge with a connection to a cell which is not merged")
        ctx.raises(lambda: tb.merge_prim_cell(h, a), "merge with a connection to a cell which is not merged")
    for i, j in ((0, 3), (2, 0), (5, 5), (0, 4)):
        h = tb.PCInterHopping(a, b)
        h.add_hopping((0, 0, 0), i, j, 1.0)
        ctx.raises(lambda: tb.merge_prim_cell(a, b, h), f"merge with a connection between orbitals {i} and {j}")
        ctx.step()
    # cells which have been extended by different factors
    for fs in itertools.product((1.0, 2.0, 4.0), repeat=3):
        for n in (2, 3):
            cs = [ref.build_cell(tb, r) for r in parts(["hex", "out", "hex"][:n])]
            for c, f in zip(cs, fs):
                c.extended = f
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                m = tb.merge_prim_cell(*cs)
            ctx.equal(m.extended, fs[0] if len(set(fs[:n])) == 1 else 1.0, f"extension factor of cells merged from {fs[:n]}")
            ctx.equal([c.extended for c in cs], list(fs[:n]), "factors of the sources")
            ctx.step()
            ctx.state("extended", fs[:n])
    for r, c in zip(rs, (a, b)):
        ref.check_cell(ctx, c, r, what="source of refused merging")
    ctx.trace("refused merging")
