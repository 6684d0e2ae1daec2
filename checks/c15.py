"""C15: lattices, coordinates and k-points over complete finite grids against explicit formulas."""
import itertools
import math

import numpy as np
import tbplas as tb

CHUNK = 8
BOUNDS = {"quick": "lattice parameters: 4 lengths^3 x 9 angles^3 (all non-degenerate); all non-singular integer 3x3 matrices "
                   "with entries -1..1 (handedness of both signs) x 2 scales; 125 coordinates x 4 origins x 4 argument types; "
                   "rotations: 3 axes x all pairs of 24 angles x 3 centres; k-meshes up to 6x6x6 and 1x1x40; 10 larger ones; k-paths of up to 3 segments "
                   "over 5 points x 4 step counts and 3 of 11 segments; cells and super cells of all dimensions up to 3 (open)",
          "thorough": "as quick, entries -2..2 (every 7th matrix row set complete), k-meshes up to 9x9x9, k-paths of 4 segments",
          "assumptions": ["Cartesian orientation of generated lattice vectors: a along x, b in the upper xy half plane, c_z > 0 (documented reference)"]}

ANGLES = [50., 60., 75., 89.9, 90., 90.003, 101.5, 109.4712206, 120.]
LENGTHS = [0.4, 1, 2.46, 1e-3]


def cases(tier):
    for a in LENGTHS:
        for al in ANGLES:
            for be in ANGLES:
                yield ["P", a, al, be]
    r = [-1, 0, 1] if tier == "quick" else [-2, -1, 0, 1, 2]
    for row in itertools.product(r, repeat=3):
        if any(row):
            yield ["M", list(row), r]
    yield ["F"]
    for ax in "xyz":
        yield ["R", ax]
    n = 6 if tier == "quick" else 9
    for i in range(1, n + 1):
        yield ["G", i, n]
    yield ["G1"]
    seg = 3 if tier == "quick" else 4
    for s in range(1, seg + 1):
        for first in range(5):
            yield ["K", s, first]
    yield ["L"]
    for d in list(itertools.product(range(1, 4), repeat=3)) + [(17, 1, 1), (20, 12, 3), (1, 50, 2)]:
        yield ["S", list(d)]


def angle(u, v):
    return math.degrees(math.acos(max(-1, min(1, np.dot(u, v) / np.linalg.norm(u) / np.linalg.norm(v)))))


def run(case, ctx):
    globals()["do_" + case[0]](ctx, *case[1:])


def do_P(ctx, a, al, be):
    for b, c, ga in itertools.product(LENGTHS, LENGTHS, ANGLES):
        ca, cb, cg = (math.cos(math.radians(x)) for x in (al, be, ga))
        disc = 1 + 2 * ca * cb * cg - ca ** 2 - cb ** 2 - cg ** 2
        if disc < 1e-3:
            continue
        what = f"gen_lattice_vectors({a},{b},{c},{al},{be},{ga})"
        v = tb.gen_lattice_vectors(a, b, c, alpha=al, beta=be, gamma=ga)
        ctx.equal(v.shape, (3, 3), what)
        ctx.close([np.linalg.norm(x) for x in v], [a, b, c], what + " lengths", 1e-10)
        ctx.close([angle(v[1], v[2]), angle(v[2], v[0]), angle(v[0], v[1])], [al, be, ga], what + " angles", 1e-7)
        ctx.true(abs(v[0, 1]) < 1e-12 and abs(v[0, 2]) < 1e-12 and abs(v[1, 2]) < 1e-12 and v[0, 0] > 0 and v[1, 1] > 0 and v[2, 2] > 0,
                 lambda: f"{what}: orientation {v}")
        geometry(ctx, v, what)
        ctx.close(tb.get_lattice_volume(v), a * b * c * math.sqrt(disc), what + " volume", 1e-9)
        ctx.close(tb.get_lattice_area(v, "a"), b * c * math.sin(math.radians(al)), what + " area a", 1e-9)
        ctx.close(tb.get_lattice_area(v, "b"), a * c * math.sin(math.radians(be)), what + " area b", 1e-9)
        ctx.close(tb.get_lattice_area(v, "c"), a * b * math.sin(math.radians(ga)), what + " area c", 1e-9)
        ctx.step(5)
        ctx.state("P", a, b, c, al, be, ga)
    ctx.trace(f"lattices a={a} alpha={al} beta={be}")
    d = tb.gen_lattice_vectors()
    ctx.close(d, np.eye(3), "default lattice", 1e-12)
    ctx.close(tb.gen_lattice_vectors(2, 3, 4), np.diag([2., 3., 4.]), "rectangular lattice", 1e-12)


def det3(v):
    return (v[0][0] * (v[1][1] * v[2][2] - v[1][2] * v[2][1]) - v[0][1] * (v[1][0] * v[2][2] - v[1][2] * v[2][0])
            + v[0][2] * (v[1][0] * v[2][1] - v[1][1] * v[2][0]))


def cross(u, v):
    return np.array([u[1] * v[2] - u[2] * v[1], u[2] * v[0] - u[0] * v[2], u[0] * v[1] - u[1] * v[0]], float)


def geometry(ctx, v, what):
    """Reciprocal vectors, volume, areas of lattice vectors v."""
    keep = np.array(v, copy=True)
    g = tb.gen_reciprocal_vectors(v)
    ctx.close(np.array(v, float) @ g.T, 2 * np.pi * np.eye(3), what + ": a_i.b_j", 1e-9)
    vol = abs(det3(np.array(v, float)))
    ctx.close(tb.get_lattice_volume(v), vol, what + ": volume", 1e-9)
    ctx.close(tb.get_lattice_volume(g), (2 * np.pi) ** 3 / vol, what + ": reciprocal volume", 1e-8)
    for d, (i, j) in zip("abc", [(1, 2), (2, 0), (0, 1)]):
        ctx.close(tb.get_lattice_area(v, d), math.sqrt(sum(cross(v[i], v[j]) ** 2)), what + ": area " + d, 1e-9)
    ctx.true(np.array_equal(keep, v), lambda: what + ": lattice vectors were altered")


def do_M(ctx, row, r):
    n = 0
    for k, rest in enumerate(itertools.product(r, repeat=6)):
        if len(r) > 3 and k % 7 != (row[0] + row[1] + row[2]) % 7:
            continue
        m = np.array([row, rest[:3], rest[3:]])
        if abs(det3(m)) == 0:
            continue
        n += 1
        for s in (1, 0.246):
            v = m if s == 1 else m * s
            what = f"lattice {v.tolist()}"
            geometry(ctx, v, what)
            f = np.array([[0.25, -1.5, 0.7], [0, 0, 0], [2, -3, 1]])
            o = np.array([0.3, -0.2, 1.1])
            x = tb.frac2cart(v, f, o)
            ctx.close(x, [[sum(p[i] * v[i][d] for i in range(3)) + o[d] for d in range(3)] for p in f], what + ": frac2cart", 1e-10)
            ctx.close(tb.cart2frac(v, x, o), f, what + ": cart2frac", 1e-8)
        ctx.step(14)
        ctx.state("M", row, rest)
    ctx.trace(f"{n} integer lattices with first row {row}")


def do_F(ctx):
    vals = [-1.3, 0, 0.25, 1, 2.75]
    pts = list(itertools.product(vals, repeat=3))
    ints = list(itertools.product([-2, 0, 1, 3], repeat=3))
    lats = [np.array([[2.46, 0, 0], [1.23, 2.13, 0], [0, 0, 10]]), np.array([[0, 1, 1], [1, 0, 1], [1, 1, 0]]),
            np.array([[-0.3, 0.1, 2.0], [0.5, 0.5, 0.1], [1.0, -0.2, 0.2]])]
    for v in lats:
        inv = np.linalg.inv(np.array(v, float))
        for o in (None, [0, 0, 0], [0.1, -0.7, 3.0], [1, 2, -3]):
            for src in (pts, ints):
                a = np.array(src)
                wc = a @ v + (0 if o is None else np.array(o))
                wf = (a - (0 if o is None else np.array(o))) @ inv
                for as_list in (False, True):
                    vv = v.tolist() if as_list else v.copy()
                    aa = [list(p) for p in src] if as_list else a.copy()
                    for oo in ([None] if o is None else [list(o), np.array(o), tuple(o)]):
                        kw = {} if oo is None else dict(origin=oo)
                        what = f"lattice {v.tolist()} origin {oo} lists {as_list}"
                        c = tb.frac2cart(vv, aa, **kw)
                        f = tb.cart2frac(vv, aa, **kw)
                        ctx.close(c, wc, "frac2cart " + what, 1e-10)
                        ctx.close(f, wf, "cart2frac " + what, 1e-9)
                        ctx.close(tb.cart2frac(vv, c, **kw), a, "cart2frac of frac2cart " + what, 1e-8)
                        ctx.close(tb.frac2cart(vv, f, **kw), a, "frac2cart of cart2frac " + what, 1e-8)
                        ctx.true(np.array_equal(np.array(aa), a) and np.array_equal(np.array(vv), v), lambda: what + ": arguments altered")
                        ctx.step(4)
                        ctx.state("F", what, len(src))
    for n in (0, 1):
        ctx.equal(tb.frac2cart(lats[0], np.zeros((n, 3))).shape, (n, 3), "frac2cart of no or one point")
        ctx.equal(tb.cart2frac(lats[0], np.zeros((n, 3))).shape, (n, 3), "cart2frac of no or one point")
    ctx.trace("conversions")


def rot(p, th, ax):
    """Right-hand rotation about the origin, by components."""
    c, s = math.cos(th), math.sin(th)
    x, y, z = p
    if ax == "x":
        return [x, c * y - s * z, s * y + c * z]
    if ax == "y":
        return [c * x + s * z, y, -s * x + c * z]
    return [c * x - s * y, s * x + c * y, z]


def do_R(ctx, ax):
    pts = np.array([[1, 0, 0], [0, 1, 0], [0, 0, 1], [1, 2, 3], [-1, 4, 2], [0, 0, 0]])
    fl = np.array([[0.1, 0.2, -0.5], [1.5, -2.25, 0.75]])
    for ctr in (None, [0, 0, 0], [0.5, -1.5, 2.5], (1, 2, 3)):
        kw = {} if ctr is None else dict(center=ctr)
        o = np.zeros(3) if ctr is None else np.array(ctr, float)
        for i in range(24):
            th = i * math.pi / 12
            for p in (pts, fl, [[1, 2, 3], [4, 5, 6]], [[0.5, 1, 2]]):
                want = [np.array(rot(np.array(q) - o, th, ax)) + o for q in p]
                keep = np.array(p, copy=True)
                for t in (th, th - 2 * math.pi):
                    got = tb.rotate_coord(p, t, axis=ax, center=np.array(ctr) if ctr is not None and i % 2 else o if ctr is None else list(ctr))
                    ctx.close(got, want, f"rotate_coord {np.array(p).tolist()} by {t} about {ax} at {ctr}", 1e-9)
                ctx.true(np.array_equal(keep, np.array(p)), "rotate_coord altered its argument")
            for j in range(24):
                t2 = j * math.pi / 12
                g = tb.rotate_coord(tb.rotate_coord(fl, th, axis=ax, **kw), t2, axis=ax, **kw)
                ctx.close(g, tb.rotate_coord(fl, th + t2, axis=ax, **kw), f"rotations by {th} and {t2} about {ax} at {ctr}", 1e-9)
                ctx.step(3)
                ctx.state("R", ax, ctr, i, j)
    ctx.close(tb.rotate_coord(fl), fl, "rotation by the default angle", 1e-12)
    for bad in ("X", "w", "", "xy"):
        ctx.raises(lambda: tb.rotate_coord(fl, 0.3, axis=bad), f"axis {bad!r}", ValueError)
    for bad in ([0, 0], [0, 0, 0, 0]):
        ctx.raises(lambda: tb.rotate_coord(fl, 0.3, axis=ax, center=bad), f"center {bad!r}", ValueError)
    for bad in ("d", "", "C"):
        ctx.raises(lambda: tb.get_lattice_area(np.eye(3), bad), f"direction {bad!r}", ValueError)
    ctx.trace("rotations about " + ax)


def mesh(ctx, size):
    k = tb.gen_kmesh(size)
    want = [[i / size[0], j / size[1], l / size[2]] for i in range(size[0]) for j in range(size[1]) for l in range(size[2])]
    ctx.close(k, want, f"gen_kmesh({size})", 1e-12)
    ctx.step()
    ctx.state("G", tuple(size))


def do_G(ctx, i, n):
    for j, l in itertools.product(range(1, n + 1), repeat=2):
        mesh(ctx, (i, j, l))
    mesh(ctx, [i, 1, n])
    ctx.trace(f"k-meshes {i} x 1..{n} x 1..{n}")


def do_G1(ctx):
    for n in range(1, 41):
        for p in range(3):
            s = [1, 1, 1]
            s[p] = n
            mesh(ctx, tuple(s))
    for bad in ((2, 2), (2,), (2, 2, 2, 2), ()):
        ctx.raises(lambda: tb.gen_kmesh(bad), f"gen_kmesh({bad})", ValueError)
    ctx.trace("long k-meshes")


HS = [[0, 0, 0], [0.5, 0, 0], [2 / 3, 1 / 3, 0], [0, 0.5, -0.5], [-1, 1, 2]]


def do_K(ctx, s, first):
    lats = [np.array([[2.46, 0, 0], [1.23, 2.13, 0], [0, 0, 10]]), np.array([[0, 1, 1], [1, 0, 1], [1, 1, 0]])]
    recs = [2 * np.pi * np.linalg.inv(np.array(v, float)).T for v in lats]
    for rest in itertools.product(range(5), repeat=s):
        hs = [HS[first]] + [HS[i] for i in rest]
        for m, num in enumerate(itertools.product((1, 2, 3, 7), repeat=s)):
            arg = [np.array(hs, float), hs, np.array(hs)][m % 3]
            narg = [num, list(num), np.array(num)][(m // 3) % 3]
            what = f"gen_kpath({hs}, {num})"
            k, idx = tb.gen_kpath(arg, narg)
            want, wi = [], [0]
            for i in range(s):
                for j in range(num[i]):
                    want.append([hs[i][d] * (1 - j / num[i]) + hs[i + 1][d] * j / num[i] for d in range(3)])
                wi.append(wi[-1] + num[i])
            want.append(hs[-1])
            ctx.close(k, want, what, 1e-12)
            ctx.equal([int(x) for x in idx], wi, what + " indices")
            ctx.close(k[idx], np.array(hs, float), what + " high-symmetry points", 1e-12)
            v, g = lats[m % 2], recs[m % 2]
            d = tb.gen_kdist(v, k)
            w = [0.0]
            for p, q in zip(want[:-1], want[1:]):
                w.append(w[-1] + float(np.linalg.norm((np.array(q) - np.array(p)) @ g)))
            ctx.close(d, w, what + " distances", 1e-9)
            ctx.step(2)
            ctx.state("K", hs, num)
    for bad in ([1] * (s + 1), [1] * (s - 1), (2,) * (s + 2)):
        ctx.raises(lambda: tb.gen_kpath(np.array(hs), bad), f"gen_kpath with {s + 1} points and {len(bad)} numbers", ValueError)
    ctx.close(tb.gen_kdist(lats[0], np.array([[0.1, 0.2, 0.3]])), [0.0], "distance of one point", 1e-12)
    ctx.trace(f"k-paths of {s} segments from {HS[first]}")


def do_L(ctx):
    for s in ((21, 20, 1), (13, 17, 5), (1, 1, 300), (101, 1, 1), (3, 64, 2), (48, 48, 1), (36, 36, 1), (10, 100, 1), (25, 25, 3), (49, 1, 49)):
        mesh(ctx, s)
    hs = [[0.13 * i - 0.4 * (i % 3), 0.5 - 0.07 * i * (i % 2), 0.01 * i * i] for i in range(12)]
    v = np.array([[2.46, 0, 0], [1.23, 2.13, 0], [0, 0.3, 10]])
    g = 2 * np.pi * np.linalg.inv(v).T
    for nums in ([40] * 11, [100, 1, 50, 13, 7, 1000, 3, 2, 49, 98, 60], list(range(1, 12))):
        k, idx = tb.gen_kpath(np.array(hs), nums)
        want, wi = [], [0]
        for i, n in enumerate(nums):
            want += [[hs[i][d] + (hs[i + 1][d] - hs[i][d]) * j / n for d in range(3)] for j in range(n)]
            wi.append(wi[-1] + n)
        want.append(hs[-1])
        ctx.close(k, want, f"k-path with {nums}", 1e-12)
        ctx.equal([int(x) for x in idx], wi, f"indices of the k-path with {nums}")
        w = [0.0]
        for p, q in zip(want[:-1], want[1:]):
            w.append(w[-1] + float(np.linalg.norm((np.array(q) - np.array(p)) @ g)))
        ctx.close(tb.gen_kdist(v, k), w, f"distances of the k-path with {nums}", 1e-9)
        ctx.step(2)
        ctx.state("L", tuple(nums))
    for n in (200, 1001):
        pts = np.array([[0.01 * i, math.sin(i), -0.3 * i] for i in range(n)])
        o = np.array([5.0, -3.0, 0.1])
        ctx.close(tb.frac2cart(v, pts, o), pts @ v + o, "many points", 1e-9)
        ctx.close(tb.cart2frac(v, pts @ v + o, o), pts, "many points", 1e-7)
        for ax in "xyz":
            ctx.close(tb.rotate_coord(pts, 1.234, axis=ax, center=o), [np.array(rot(p - o, 1.234, ax)) + o for p in pts],
                      f"rotation of many points about {ax}", 1e-8)
        ctx.step(5)
    ctx.trace("large meshes and paths")


def do_S(ctx, d):
    """Geometry reported by cells and super cells."""
    for v in ([[2.46, 0, 0], [1.23, 2.13, 0], [0, 0, 10]], [[0, 1.5, 1], [1, 0, 1.2], [1, 1, 0]]):
        c = tb.PrimitiveCell(np.array(v, float), origin=np.array([0.1, 0.2, 0.3]), unit=tb.ANG)
        c.add_orbital((0.1, 0.2, 0.3), 0.0)
        c.add_orbital((0.6, 0.2, 0.3), 0.0)
        c.add_hopping((0, 0, 0), 0, 1, 1.0)
        s = tb.SuperCell(c, tuple(d), pbc=(False, False, False))
        a = np.array(v, float) * 0.1
        A = a * np.array(d)[:, None]
        for o, m, what in ((c, a, "cell"), (s, A, "super cell")):
            for x, (i, j) in zip("abc", [(1, 2), (2, 0), (0, 1)]):
                ctx.close(o.get_lattice_area(x), math.sqrt(sum(cross(m[i], m[j]) ** 2)), f"{what} {d}: area {x}", 1e-9)
            ctx.close(o.get_lattice_area(), math.sqrt(sum(cross(m[0], m[1]) ** 2)), f"{what} {d}: area", 1e-9)
            ctx.close(o.get_lattice_volume(), abs(det3(m)), f"{what} {d}: volume", 1e-9)
            ctx.close(m @ o.get_reciprocal_vectors().T, 2 * np.pi * np.eye(3), f"{what} {d}: reciprocal vectors", 1e-9)
            ctx.step(6)
        ctx.close(c.lat_vec, a, "lat_vec", 1e-12)
        ctx.close(s.sc_lat_vec, A, "sc_lat_vec", 1e-12)
        ctx.close(c.origin, [0.01, 0.02, 0.03], "origin", 1e-12)
        ctx.close(c.orb_pos_nm, np.array([[0.1, 0.2, 0.3], [0.6, 0.2, 0.3]]) @ a + [0.01, 0.02, 0.03], "orb_pos_nm", 1e-12)
        ctx.close(c.orb_pos_ang, np.array(c.orb_pos_nm) * 10, "orb_pos_ang", 1e-12)
        smp = tb.Sample(s)
        for x in "abc":
            ctx.close(s.get_lattice_area(x), smp.sc0.get_lattice_area(x), "sample area", 1e-12)
    ctx.state("S", d)
    ctx.trace(f"geometry of super cell {d}")
