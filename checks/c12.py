"""C12: neighbour search: every cell of a family x ranges x cutoffs against a brute-force search."""
import itertools
import math

import numpy as np
import tbplas as tb

from lib import ref

LATS = {"cube": [[1.0, 0, 0], [0, 1.0, 0], [0, 0, 1.0]], "rect": [[0.5, 0, 0], [0, 2.0, 0], [0, 0, 1.5]],
        "hex": [[0.246, 0, 0], [0.123, 0.213042, 0], [0, 0, 1.0]],
        "tri": [[0.25, 0.02, 0.01], [0.11, 0.23, -0.03], [0.02, -0.05, 0.31]],
        "left": [[0, 1.0, 0.2], [0.7, 0, 0], [0.1, 0.3, 0.9]]}
SITES = [(0, 0, 0), (0.5, 0, 0), (0.25, 0.5, 0.75), (1 / 3, 1 / 3, 0), (1.25, -0.5, 0), (0.5, 0.5, 0.5)]
ORG = {"0": (0, 0, 0), "1": (0.3, -0.45, 2.0)}
RANGES = [(0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1), (1, 1, 0), (1, 2, 1), (2, 1, 0), (2, 2, 2)]
CUTS = [0.0, 0.05, 0.1421, 0.25, 0.5, 0.75, 1.0, 1.25, 1.5, 2.5]
BOUNDS = {"quick": "5 lattices x 2 origins x all non-empty subsets of at most 3 (ordered as listed, and all ordered pairs with "
                   "repetition) of 6 sites x 8 ranges x 10 cutoffs; all pairs of different cells out of subsets of size at most 2; "
                   "super cells of 3 dimensions with vacancies and position modifiers; cells with 12 and 25 (80 and 130) sites, ranges up to 9 (2); distances down to 1e-7 nm",
          "thorough": "subsets of up to 6 sites, all ranges up to 2, 20 cutoffs",
          "assumptions": ["pairs whose distance is within 1e-9 of the cutoff are compared on lattices with exact arithmetic only"]}
CHUNK = 2


def cell(lat, org, sites, hop=False):
    r = ref.Cell(LATS[lat], ORG[org], 1.0)
    for i in sites:
        r.add_orbital(SITES[i])
    if hop:
        r.add_hopping((1, 0, 0), 0, len(sites) - 1, 1.0)
    return r


def brute(pb, pk, lat, rng, cut):
    out = {}
    for rn in itertools.product(*[range(-x, x + 1) for x in rng]):
        q = pk + np.array(rn, float) @ lat
        d = q[None, :, :] - pb[:, None, :]
        n = np.sqrt((d ** 2).sum(-1))
        for i, j in zip(*np.nonzero(n <= cut + 1e-9)):
            out[(rn, int(i), int(j))] = (d[i, j], float(n[i, j]))
    return out


def compare(ctx, got, pb, pk, lat, rng, cut, exact, what):
    want = brute(pb, pk, lat, rng, cut)
    seen, last = {}, 0.0
    for t in got:
        k = (tuple(int(x) for x in t.rn), int(t.pair[0]), int(t.pair[1]))
        ctx.true(k not in seen, lambda: f"{what}: {k} returned twice")
        ctx.true(k in want, lambda: f"{what}: {k} returned, not within the cutoff or range")
        d, n = want[k]
        ctx.true(t.distance > 0, lambda: f"{what}: {k} at distance {t.distance}")
        ctx.close(t.rij, d, f"{what}: displacement of {k}", 1e-9)
        ctx.close(t.distance, n, f"{what}: distance of {k}", 1e-9)
        ctx.true(t.distance >= last - 1e-12, lambda: f"{what}: not in order of distance")
        last = t.distance
        seen[k] = 1
    for k, (d, n) in want.items():
        sure = 1e-9 < n < cut - 1e-9 or (exact and 0 < n <= cut)
        ctx.true(k in seen or not sure, lambda: f"{what}: {k} at distance {n} is missing")
        ctx.true(k not in seen or (n > 0 and (not exact or n <= cut)), lambda: f"{what}: {k} at distance {n} returned")


def cases(tier):
    top = 3 if tier == "quick" else 6
    for lat in LATS:
        for org in ORG:
            for n in range(1, top + 1):
                for s in itertools.combinations(range(len(SITES)), n):
                    yield ["P", lat, org, list(s)]
            for s in itertools.product(range(len(SITES)), repeat=2):
                if s[0] >= s[1]:
                    yield ["P", lat, org, list(s)]
    subs = [list(s) for n in (1, 2) for s in itertools.combinations(range(len(SITES)), n)]
    for lat in LATS:
        for lk in (LATS if lat in ("tri", "left") else [lat]):
            for s in subs:
                yield ["Q", lat, lk, s]
    for lat in LATS:
        for mod in (None, "bend", "shift"):
            for vac in ([], [[0, 0, 0, 0]], [[1, 1, 0, 1], [2, 0, 0, 0]]):
                for dim in ((3, 3, 1), (4, 3, 1), (3, 3, 3)):
                    yield ["S", lat, mod, vac, list(dim)]
    for lat in LATS:
        for org in ORG:
            for n in (12, 25):
                yield ["L", lat, org, n]
            for n in (80, 130):
                yield ["L", lat, org, n]
            yield ["T", lat, org]
    yield ["X"]


def run(case, ctx):
    ranges, cuts = RANGES, CUTS
    if ctx.tier == "thorough":
        ranges = list(itertools.product(range(3), repeat=3))
        cuts = CUTS + [0.1, 0.2, 0.3, 0.4, 0.6, 0.9, 1.1, 1.9, 2.0, 3.0]
    if case[0] == "P":
        _, lat, org, s = case
        r = cell(lat, org, s)
        c = ref.build_cell(tb, r)
        p = r.pos_nm()
        exact = lat in ("cube", "rect") and org == "0" and 3 not in s
        for rng in ranges:
            for cut in cuts:
                kw = dict(a_max=rng[0], b_max=rng[1], c_max=rng[2], max_distance=cut)
                g = tb.find_neighbors(c, **kw)
                what = f"{lat}{org} {s} range {rng} cutoff {cut}"
                compare(ctx, g, p, p, r.lat, rng, cut, exact, what)
                ctx.step()
                ctx.state("P", lat, org, tuple(s), rng, cut)
                if rng == (1, 1, 0) and cut == 0.75:
                    g2 = tb.find_neighbors(c, c, **kw)
                    compare(ctx, g2, p, p, r.lat, rng, cut, exact, what + " (cell given twice)")
        ref.check_cell(ctx, c, r, what="searched cell", deep=False)
        ctx.trace(f"{lat}{org} {s}")
    elif case[0] == "L":
        _, lat, org, n = case
        r = ref.Cell(LATS[lat], ORG[org], 1.0)
        for i in range(n):
            r.add_orbital(((0.37 * i) % 2.0 - 0.7, (0.61 * i * i) % 1.0, (0.113 * i) % 1.0))
        c = ref.build_cell(tb, r)
        p = r.pos_nm()
        for rng in ((3, 3, 0), (5, 4, 1), (0, 6, 0), (4, 0, 2), (7, 0, 0), (0, 0, 9)) if n < 30 else ((0, 0, 0), (1, 1, 0), (1, 0, 2)):
            for cut in (0.3, 1.1, 2.5) if n < 30 else (0.11, 0.3):
                g = tb.find_neighbors(c, a_max=rng[0], b_max=rng[1], c_max=rng[2], max_distance=cut)
                compare(ctx, g, p, p, r.lat, rng, cut, False, f"{n} sites of {lat}{org} range {rng} cutoff {cut}")
                ctx.step()
                ctx.state("L", lat, org, n, rng, cut)
        ctx.trace(f"{n} sites {lat}{org}")
    elif case[0] == "T":
        # orbitals which are very close to each other, in one cell and in two cells
        _, lat, org = case
        for q in range(1, 8):
            for u in ((1, 0, 0), (0, 0, 1), (-1, 1, 0), (1, 1, 1)):
                e = np.array(u) * 10.0 ** -q
                r = ref.Cell(LATS[lat], ORG[org], 1.0)
                for s in ((0, 0, 0), (0.5, 0.25, 0.125)):
                    p0 = r.frac(np.array(s) @ r.lat + r.origin)
                    r.add_orbital(tuple(p0))
                    r.add_orbital(tuple(r.frac(np.array(s) @ r.lat + r.origin + e)))
                    r.add_orbital(tuple(np.array(r.frac(np.array(s) @ r.lat + r.origin - e)) + (1, 0, -1)))
                r2 = ref.Cell(LATS[lat], np.array(ORG[org]) + e, 1.0)
                r2.add_orbital((0, 0, 0))
                r2.add_orbital((0.5, 0.25, 0.125))
                c, c2 = ref.build_cell(tb, r), ref.build_cell(tb, r2)
                for rng in ((0, 0, 0), (1, 1, 1)):
                    for cut in (0.1, 0.25, 2.0 * 10.0 ** -q):
                        kw = dict(a_max=rng[0], b_max=rng[1], c_max=rng[2], max_distance=cut)
                        for x, y, rx, ry in ((c, None, r, r), (c2, c, r2, r), (c, c2, r, r2)):
                            compare(ctx, tb.find_neighbors(x, y, **kw), rx.pos_nm(), ry.pos_nm(), ry.lat, rng, cut, False,
                                    f"distances of 1e-{q} along {u} in {lat}{org} range {rng} cutoff {cut}")
                            ctx.step()
                ctx.state("T", lat, org, q, u)
        ctx.trace(f"close orbitals {lat}{org}")
    elif case[0] == "Q":
        _, lat, lk, s = case
        rb = cell(lat, "0", s)
        cb = ref.build_cell(tb, rb)
        for s2 in ([0], [2, 5], [1, 3, 4]):
            for org in ORG:
                rk = cell(lk, org, s2)
                ck = ref.build_cell(tb, rk)
                for rng in RANGES[:7]:
                    for cut in (0.25, 0.75, 1.25):
                        for (b, r1), (k, r2) in (((cb, rb), (ck, rk)), ((ck, rk), (cb, rb))):
                            g = tb.find_neighbors(b, k, a_max=rng[0], b_max=rng[1], c_max=rng[2], max_distance=cut)
                            compare(ctx, g, r1.pos_nm(), r2.pos_nm(), r2.lat, rng, cut, False,
                                    f"{lat} {s} and {lk}{org} {s2} range {rng} cutoff {cut}")
                            ctx.step()
                        ctx.state("Q", lat, lk, org, tuple(s), tuple(s2), rng, cut)
        ctx.trace(f"{lat} {s} with {lk}")
    elif case[0] == "S":
        _, lat, mod, vac, dim = case
        ctx.case = case
        r = cell(lat, "1", [0, 3], True)
        s1 = ref.SC(r, dim, (0, 0, 0), [tuple(v) for v in vac], mod)
        r2 = cell(lat, "0", [2, 5], True)
        s2 = ref.SC(r2, (3, 3, 1), (1, 1, 0))
        a = ref.build_sc(tb, ref.build_cell(tb, r), s1)
        b = ref.build_sc(tb, ref.build_cell(tb, r2), s2)
        for rng in RANGES[:5]:
            for cut in (0.3, 0.75):
                kw = dict(a_max=rng[0], b_max=rng[1], c_max=rng[2], max_distance=cut)
                for x, y, rx, ry in ((a, None, s1, s1), (a, b, s1, s2), (b, a, s2, s1)):
                    g = tb.find_neighbors(x, y, **kw)
                    compare(ctx, g, rx.pos(), ry.pos(), ry.lat, rng, cut, False,
                            f"super cells of {lat} {dim} {mod} {vac} range {rng} cutoff {cut}")
                    ctx.step()
                ctx.state("S", lat, mod, str(vac), tuple(dim), rng, cut)
        ctx.trace(f"super cells {lat} {mod} {vac} {dim}")
    else:
        e = tb.PrimitiveCell(np.eye(3))
        f = ref.build_cell(tb, cell("tri", "0", [0]))
        ctx.raises(lambda: tb.find_neighbors(e), "search of an empty cell")
        ctx.raises(lambda: tb.find_neighbors(f, e), "search of an empty cell")
        ctx.raises(lambda: tb.find_neighbors(e, f), "search of an empty cell")
        ctx.step(3)
        ctx.trace("empty")
