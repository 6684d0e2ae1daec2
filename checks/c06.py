"""C06: super-cell hopping terms: all models x dimensions x periodicities x vacancies x modifiers."""
import itertools

import numpy as np
import tbplas as tb

from lib import ref

LAT = [[1.1, 0.2, 0.05], [-0.3, 0.9, 0.1], [0.15, -0.1, 1.4]]
MODELS = {
    # name: (orbitals, terms, dims)
    "sq": (1, [((1, 0, 0), 0, 0, -1.0), ((0, 1, 0), 0, 0, 0.5j)], [(3, 3, 1), (4, 3, 1), (3, 5, 1), (3, 3, 2)]),
    "hex": (2, [((0, 0, 0), 0, 1, -1.0), ((1, 0, 0), 1, 0, 0.5 - 1j), ((0, 1, 0), 1, 0, 2.0)],
            [(3, 3, 1), (3, 4, 1), (4, 3, 2)]),
    "far": (3, [((2, 0, 0), 0, 0, 1.0), ((1, 0, 0), 0, 2, 1e-7j), ((-2, 0, 0), 1, 2, -0.5), ((0, 0, 0), 2, 1, 3.0)],
            [(5, 1, 1), (6, 1, 1), (5, 2, 1)]),
    "3d": (1, [((1, 1, 1), 0, 0, 1.0), ((0, 0, 1), 0, 0, 1j), ((1, 0, -1), 0, 0, 0.25)], [(3, 3, 3), (3, 3, 4)]),
    "mol": (3, [((0, 0, 0), 0, 1, 1.0), ((0, 0, 0), 2, 1, 1j)], [(1, 1, 1), (2, 1, 1), (2, 2, 1), (1, 2, 2)]),
    "skew": (2, [((1, -1, 0), 0, 1, 1 + 1j), ((-1, 1, 0), 0, 1, 0.5), ((0, 1, 0), 1, 1, -2.0), ((0, 0, 1), 0, 1, 0.1)],
             [(3, 3, 3), (4, 3, 3)]),
}
PBC = list(itertools.product((0, 1), repeat=3))


def cell(name):
    n, terms, _ = MODELS[name]
    r = ref.Cell(LAT, (0.2, -0.3, 0.1), 1.0)
    for i in range(n):
        r.add_orbital((0.1 + 0.3 * i, 0.45 - 0.2 * i, 0.15 * i), 0.5 * i - 1)
    for rn, i, j, e in terms:
        r.add_hopping(rn, i, j, e)
    return r


def modifiers(s):
    """All kinds of modifications of the terms of reference super cell s."""
    hops = s.hops()
    n = s.n
    pairs = {frozenset((i, j)) for _, i, j in hops}
    keys = sorted(hops)
    out = [[]]
    for q in sorted({0, len(keys) // 2, len(keys) - 1} if keys else ()):
        rn, i, j = keys[q]
        neg = tuple(-x for x in rn)
        out.append([(rn, i, j, 7.0 - 1j)])
        out.append([(neg, j, i, -6.0 + 2j)])
        if i != j:
            out.append([((0, 0, 1), i, j, 5j)])        # the same pair in another cell: replaced
    new = [(i, j) for i in range(n) for j in range(i + 1, n) if frozenset((i, j)) not in pairs]
    for i, j in (new[:1] + new[-1:]):
        out.append([((0, 0), i, j, 2.5j)])
        out.append([((1, 0, -1), j, i, -3.0 + 1j)])
        out.append([((0, 0, 0), i, j, 2.5j), ((0, 1, 0), i, j, 1.5)])
    out.append([((1, 0, 0), 0, 0, 0.7j)])
    if keys and new:
        rn, i, j = keys[0]
        out.append([(rn, i, j, 7.0 - 1j), ((0, 0, 0), new[0][1], new[0][0], 1 + 1j), ((0, -1, 0), n - 1, n - 1, 0.5)])
        rn2, i2, j2 = keys[-1]
        if (i, j) != (i2, j2):
            out.append([(rn, i, j, 7.0 - 1j), (rn2, i2, j2, 0.0), ((0, 0, 0), new[-1][0], new[-1][1], 1 + 1j)])
    return out


def trim_ok(ctx, sc, s, what):
    sc.trim()
    s.trim()
    ctx.step()
    if s.n:
        ref.check_sc(ctx, sc, s, what=what)
    else:
        ctx.equal(sc.num_orb_sc, 0, what)


# operations for histories, on (c, r, sc, s)
def o_vac(v):
    def f(w):
        w[2].add_vacancies([v])
        w[3].vac.add(v)
    return f


def o_setvac(*v):
    def f(w):
        w[2].set_vacancies(list(v))
        w[3].vac = set(v)
    return f


def o_hop(rn, i, j, e):
    def f(w):
        if max(i, j) >= w[3].n:
            return False
        w[2].add_hopping(rn, i, j, e)
        w[3].add_hopping(rn, i, j, e)
    return f


def o_mod(m):
    def f(w):
        w[2].set_orb_pos_modifier(ref.posmod(m))
        w[3].mod = m
    return f


def o_trim(w):
    w[2].trim()
    w[3].trim()


def o_read(w):
    w[2].get_hop()


def o_cell(w):
    w[0].unlock()
    w[0].add_hopping((0, 0), 0, 1, 4.0)
    w[1].add_hopping((0, 0), 0, 1, 4.0)


def o_cell2(w):
    w[0].unlock()
    w[0].set_orbital(1, position=(0.9, -0.2, 0.1), energy=-4.0)
    w[1].set_orbital(1, position=(0.9, -0.2, 0.1), energy=-4.0)


OPS = {"v0": o_vac((0, 0, 0, 0)), "v1": o_vac((1, 2, 0, 1)), "v2": o_setvac((2, 2, 0, 1), (0, 1, 0, 0)),
       "vn": o_setvac(), "h1": o_hop((0, 0), 0, 1, 9.0), "h2": o_hop((0, 1), 7, 2, 1j),
       "h3": o_hop((0, 0, 0), 3, 12, 1.5), "mb": o_mod("bend"), "ms": o_mod("shift"), "m0": o_mod(None),
       "trim": o_trim, "read": o_read, "cell": o_cell, "cell2": o_cell2}
BOUNDS = {"quick": "6 models x their dimensions x 8 periodicities x all vacancy subsets of size at most 1 (2 up to "
                   "12 sites) x modifiers of 12 kinds x trimming; all histories of 3 of 14 operations; "
                   "6 large super cells (up to 240 sites) x 4 periodicities x 4 patterns of vacancies and modifications",
          "thorough": "all vacancy subsets of size at most 2 (3 up to 12 sites); histories of 4 operations"}


def cases(tier):
    for name, (_, _, dims) in MODELS.items():
        for d in dims:
            for p in PBC:
                yield ["M", name, d, p, 1 if tier == "quick" else 2]
    for p in ((0, 0, 0), (1, 1, 0), (1, 0, 0)):
        for a in itertools.product(OPS, repeat=2):
            yield ["H", p, list(a), 3 if tier == "quick" else 4]
    for name, (_, _, dims) in MODELS.items():
        for d in dims:
            yield ["F", name, d]
    for name, d in LARGE:
        for p in ((0, 0, 0), (1, 1, 0), (0, 1, 1), (1, 1, 1)):
            for v in range(4):
                yield ["L", name, d, p, v]


LARGE = [("hex", (12, 9, 1)), ("sq", (20, 7, 1)), ("far", (25, 3, 2)), ("3d", (5, 6, 4)), ("skew", (6, 5, 3)), ("mol", (4, 5, 6))]


def large(ctx, name, d, p, v):
    """Large super cells with many vacancies and many modifications."""
    r = cell(name)
    c = ref.build_cell(tb, r)
    sites = list(itertools.product(range(d[0]), range(d[1]), range(d[2]), range(r.n)))
    vac = [x for i, x in enumerate(sites) if (False, i % 7 == 3, (5 * i * i + i) % 13 < 4, i % 11 == 0)[v]]
    s = ref.SC(r, d, p, vac, (None, "bend", None, "shift")[v])
    keys = sorted(s.hops())
    pairs = {frozenset(k[1:]) for k in keys}
    n = s.n
    if v != 1:
        for q in range(0, len(keys), 6):           # existing terms
            rn, i, j = keys[q]
            s.add_hopping(rn, i, j, 3.0 + 0.01j * q)
        for q in range(25):                        # new terms
            i, j = (17 * q + 3) % n, (29 * q * q + 8) % n
            if i != j and frozenset((i, j)) not in pairs:
                pairs.add(frozenset((i, j)))
                s.add_hopping((q % 3 - 1, 0, q % 2), i, j, 0.1 * q - 1j)
    sc = ref.build_sc(tb, c, s)
    what = f"large {name} {d} pbc {p} vacancies {len(vac)} modifications {len(s.mods)}"
    ctx.step()
    ctx.state(what, v)
    ref.check_sc(ctx, sc, s, what=what)
    if not s.mods:
        for _ in range(3):
            trim_ok(ctx, sc, s, what + " trimmed")
    ctx.trace(what)


def run(case, ctx):
    if case[0] == "L":
        large(ctx, *case[1:])
    elif case[0] == "M":
        _, name, d, p, k = case
        r = cell(name)
        c = ref.build_cell(tb, r)
        sites = list(itertools.product(range(d[0]), range(d[1]), range(d[2]), range(r.n)))
        if len(sites) <= 12:
            k += 1
        for m in range(k + 1):
            for vac in itertools.combinations(sites, m):
                if len(vac) == len(sites):
                    continue
                s = ref.SC(r, d, p, vac)
                full = len(vac) == 0 or vac in ((sites[0],), (sites[len(sites) // 2],))
                mods = modifiers(s) if full else [[]]
                for mod in mods:
                    for pm in (None, "bend", "shift") if (full and len(mod) != 1) else (None,):
                        s = ref.SC(r, d, p, vac, pm)
                        for t in mod:
                            s.add_hopping(*t)
                        sc = tb.SuperCell(c, tuple(d), pbc=tuple(bool(x) for x in p), vacancies=vac or None,
                                          orb_pos_modifier=ref.posmod(pm))
                        for t in mod:
                            sc.add_hopping(*t)
                        ctx.case = ["M", name, d, p, k, list(vac), str(mod), pm]
                        ctx.step()
                        ctx.state(name, tuple(d), tuple(p), vac, str(mod), pm)
                        what = f"{name} {d} pbc {p} vacancies {vac} modifier {mod} {pm}"
                        ref.check_sc(ctx, sc, s, what=what, ids=False)
                        if full:
                            trim_ok(ctx, sc, s, what + " trimmed")
                            if s.n:
                                trim_ok(ctx, sc, s, what + " trimmed twice")
                        ctx.trace(what)
        ref.check_cell(ctx, c, r)
    elif case[0] == "H":
        _, p, pre, deep = case

        def rec(seq):
            r = cell("hex")
            c = ref.build_cell(tb, r)
            s = ref.SC(r, (3, 3, 1), p)
            sc = ref.build_sc(tb, c, s)
            w = (c, r, sc, s)
            for o in seq:
                if OPS[o](w) is False:
                    return
                if s.mods and max(max(k[1:]) for k in s.mods) >= s.n:
                    return                      # a modification lost its orbital: undefined
                ctx.step()
            ctx.case = ["H", p, seq, len(seq)]
            ctx.state("H", tuple(p), s.key())
            if s.n:
                ref.check_sc(ctx, sc, s, what=f"pbc {p} after {' '.join(seq)}")
            ctx.trace(f"pbc {p}: {' '.join(seq)}")
            if len(seq) < deep:
                for o in OPS:
                    rec(seq + [o])
        rec(pre)
    else:
        _, name, d = case
        r = cell(name)
        s = ref.SC(r, d, (1, 1, 1))
        sc = ref.build_sc(tb, ref.build_cell(tb, r), s)
        smp = tb.Sample(sc)
        smp.init_orb_eng()
        smp.init_orb_pos()
        smp.init_hop()
        for k in ((0, 0, 0), (0.21, -0.13, 0.4), (0.5, 0.5, 0.5)):
            h = np.zeros((s.n, s.n), complex)
            smp.set_ham_dense(np.array(k, float), h)
            ctx.close(np.linalg.eigvalsh(h), ref.fold(r, d, k), f"folded spectrum of {name} {d} at {k}", 1e-8)
            ctx.step()
        ctx.state("F", name, tuple(d))
        ctx.trace(f"fold {name} {d}")
