"""C01: all edit histories of a primitive cell against the reference cell."""
import itertools

import numpy as np
import tbplas as tb

from lib import ref

LAT = [[2.0, 0.3, 0.0], [-0.7, 1.9, 0.2], [0.1, -0.4, 3.1]]
LAT2 = [[1.0, 0.0, 0.0], [0.5, 1.5, 0.0], [0.0, 0.2, 2.0]]
ORG = [0.25, -0.5, 0.75]
NM, ANG = 1.0, 0.1


def start(kind):
    """Fresh implementation cell and reference cell of an initial state."""
    c = tb.PrimitiveCell(np.array(LAT), np.array(ORG), unit=ANG)
    r = ref.Cell(LAT, ORG, ANG)
    if kind == "empty":
        return c, r
    for p, e, l in (((0.1, 0.2), -1.0, "A"), ((0.4, 0.6, 0.3), 0.5, "B"),
                    ((-0.3, 1.2, 0.0), 0.0, "C")):
        c.add_orbital(p, energy=e, label=l)
        r.add_orbital(p, energy=e, label=l)
    terms = [((0, 0), 0, 1, -1.0), ((1, 0, 0), 0, 0, 0.5j), ((0, -1), 1, 2, 1 - 2j),
             ((-1, 1), 0, 2, 0.25), ((0, 0, 1), 2, 1, 2.0)]
    if kind == "two":
        terms = [((0, 0), 2, 1, -2.0 + 1j), ((0, 0, -1), 2, 2, -1.0)]
    for t in terms:
        c.add_hopping(*t)
        r.add_hopping(*t)
    return c, r


def _hopdict(n):
    d = tb.HopDict(n)
    m = np.zeros((n, n), complex)
    m[0, 1] = -3.0 + 1j
    d[(0, 0)] = m
    m[:] = 0                     # the buffer is used again
    m[1, 0] = 2.0
    m[0, 0] = -1j
    d[(0, -1, 0)] = m
    m[:] = 77
    return d


# name -> (guard on the reference, action on (c, r))
def both(name, *a, **k):
    def act(c, r):
        getattr(c, name)(*a, **k)
        getattr(r, name)(*a, **k)
    return act


def need(n):
    return lambda r: r.n >= n


def has(rn, i, j):
    return lambda r: r.n > max(i, j) and r.get_hopping(rn, i, j) is not None


def _rm(idx):
    def act(c, r):
        c.remove_orbital(idx) if len([idx]) == 1 else None
        r.remove_orbitals([idx])
    return act


def _rms(idx, conv=list):
    def act(c, r):
        c.remove_orbitals(conv(idx))
        r.remove_orbitals(idx)
    return act


def _rmlast(c, r):
    c.remove_orbital(r.n - 1)
    r.remove_orbitals([r.n - 1])


def _dict(c, r):
    c.add_hopping_dict(_hopdict(r.n))
    r.add_hopping((0, 0, 0), 0, 1, -3.0 + 1j)
    r.add_hopping((0, -1, 0), 1, 0, 2.0)
    r.add_hopping((0, -1, 0), 0, 0, -1j)


def _reset(**kw):
    kw2 = dict(kw)
    lat = kw.pop("lat", None)
    kw2.pop("lat", None)

    def act(c, r):
        c.reset_lattice(lat_vec=None if lat is None else np.array(lat), **kw2)
        r.reset_lattice(lat=lat, **kw2)
    return act


def _read_orb(c, r):
    c.orb_pos, c.orb_eng
    if r.n:
        c.orb_pos_nm


def _read_hop(c, r):
    c.hop_ind, c.hop_eng
    if r.hops:
        c.dr_nm


def _read_hk(c, r):
    c.sync_array()
    if r.n and r.hops:
        h = np.zeros((r.n, r.n), complex)
        c.set_ham_dense(np.zeros(3), h)


def _read_lists(c, r):
    c.num_hop, c.num_orb, list(c.hoppings.items()), list(c.orbitals)
    hash(c)


OPS = {
    "add0": (need(0), both("add_orbital", (0.7, 0.1), energy=-2.0, label="N")),
    "add3": (need(0), both("add_orbital", (0.7, -0.1, 0.2))),
    "addc": (need(0), both("add_orbital_cart", (0.5, 0.25), unit=NM, energy=1.5, label="K")),
    "addc3": (need(0), both("add_orbital_cart", (0.5, 0.25, -0.75), energy=-1.0)),
    "seteng0": (need(1), both("set_orbital", 0, energy=-2.0)),
    "setpos1": (need(2), both("set_orbital", 1, position=(-1.0, 0.5))),
    "setlab0": (need(1), both("set_orbital", 0, label="Z")),
    "setcart2": (need(3), both("set_orbital_cart", 2, position=(1.0, -2.0, 0.5), unit=ANG,
                               energy=0.25)),
    "setcart0": (need(1), both("set_orbital_cart", 0, position=(0.1, 0.2), unit=NM)),
    "setcarte": (need(1), both("set_orbital_cart", 0, energy=3.0)),
    "rm0": (need(1), _rm(0)),
    "rmlast": (need(2), _rmlast),
    "rm02": (need(3), _rms([2, 0])),
    "rmdup": (need(2), _rms([1, 1, 0])),
    "rmarr": (need(2), _rms([1], lambda x: np.array(x))),
    "hop01": (need(2), both("add_hopping", (0, 0), 0, 1, -2.0)),
    "hop10": (need(2), both("add_hopping", (0, 0, 0), 1, 0, 1.0 - 0.5j)),
    "hopself": (need(1), both("add_hopping", (-1, 0, 0), 0, 0, 0.5 + 0.5j)),
    "hopx": (need(3), both("add_hopping", (1, -1), 2, 0, -1)),
    "hopz": (need(2), both("add_hopping", (0, 0, -1), 1, 0, 0.5j)),
    "hopy": (need(2), both("add_hopping", (0, 1, -2), 1, 1, -2j)),
    "delhop": (has((0, 0), 0, 1), both("remove_hopping", (0, 0), 1, 0)),
    "delself": (has((1, 0), 0, 0), both("remove_hopping", (-1, 0), 0, 0)),
    "delx": (has((1, -1, 0), 2, 0), both("remove_hopping", (1, -1, 0), 2, 0)),
    "dict": (need(2), _dict),
    "trim": (need(0), both("trim")),
    "pbcx": (need(0), both("apply_pbc", (True, False, False))),
    "pbcyz": (need(0), both("apply_pbc", (False, True, True))),
    "latfix": (need(0), _reset(lat=LAT2)),
    "latmove": (need(0), _reset(lat=LAT2, origin=[1., 2., 3.], unit=NM, fix_orb=False)),
    "orgfix": (need(0), _reset(origin=[0.5, 0.0, -0.5], unit=NM)),
    "rorb": (need(0), _read_orb),
    "rhop": (need(0), _read_hop),
    "rhk": (need(0), _read_hk),
    "rlist": (need(0), _read_lists),
}
NAMES = list(OPS)
CORE = ["add0", "seteng0", "setpos1", "rm0", "rm02", "hop01", "hop10", "hopself", "hopx",
        "delhop", "dict", "trim", "pbcx", "latfix", "latmove", "rorb", "rhop"]
STARTS = ["empty", "three", "two"]
BOUNDS = {"quick": f"all sequences of at most 3 of {len(NAMES)} operations (depth 2 from 'two') and of 4 of "
                   f"{len(CORE)} core operations, from 3 initial cells; cells of up to 40 orbitals and 1600 terms x 6 edits; terms among the last, middle and first of 130 and 260 orbitals in both orders, overwritten, read, removed; all pairs, triples and larger sets of 18 orbitals removed",
          "thorough": f"all sequences of at most 4 of {len(NAMES)} operations and of 5 of "
                      f"{len(CORE)} core operations"}


def cases(tier):
    deep = 3 if tier == "quick" else 4
    yield from ([s, "all", []] for s in STARTS)
    for s in STARTS:
        for a in NAMES:
            yield [s, "1", [a]]
    for s in STARTS:
        for a in NAMES:
            for b in NAMES:
                yield [s, deep - (1 if s == "two" and tier == "quick" else 0), [a, b]]
    for s in STARTS[1:] if tier == "quick" else STARTS:
        for a in CORE:
            for b in CORE:
                yield [s, "core4" if tier == "quick" else "core5", [a, b]]


    R = range(-2, 3)
    for rn in itertools.product(R, R, R):
        yield ["wide", "hop", list(rn)]
    for rn in FAR:
        yield ["wide", "hop", list(rn)]
    for n in (12, 24, 40) if tier == "quick" else (12, 24, 40, 80):
        for k in range(6):
            yield ["wide", "big", [n, k]]
    for n in (130, 260):
        yield ["wide", "huge", [n]]
    for i in range(18):
        yield ["wide", "rm2", [i]]
    for a in (0, 1):
        yield ["wide", "alias", [a]]
    for m in range(64):
        yield ["wide", "rm", [i for i in range(6) if m >> i & 1]]
    for pbc in itertools.product((0, 1), repeat=3):
        yield ["wide", "pbc", list(pbc)]
    for a in range(len(V_ENG)):
        for b in range(len(V_LAB)):
            for p in range(len(V_POS)):
                yield ["wide", "val", [a, b, p]]
    for a in range(len(V_HOP)):
        yield ["wide", "hval", [a]]


# boundary values: zeros, empty labels, integers, arrays and lists
V_ENG = [None, 0.0, 0, -0.0, 1e-12, -3, 1e6, np.float64(0.25)]
V_LAB = [None, "", 0, "A", ("x", 1), False]
V_POS = [None, (0, 0), (0.0, 0.0, 0.0), [0.5, 0.25], np.array([1.0, -1.0, 0.0]), (-2.5, 3, 1e-3)]
V_HOP = [0, 0.0, 0j, 1, -1.0, 1j, 1e-9, np.complex128(1 - 2j), np.float64(0.5)]


FAR = [(10, 0, 0), (-11, 3, 0), (0, 37, -2), (100, -100, 50), (-1000, 0, 1), (3, 3, 3), (-3, -3, -3), (0, 0, 9)]


def dense(n=6, part=1):
    """A cell with n orbitals and terms of every kind; part: the fraction of pairs with a term."""
    c = tb.PrimitiveCell(np.array(LAT), np.array(ORG), unit=NM)
    r = ref.Cell(LAT, ORG, NM)
    for i in range(n):
        a = ((0.15 * i, 0.9 - 0.2 * i, 0.05 * i * i), )
        k = dict(energy=i - 2.0, label=f"o{i}")
        c.add_orbital(*a, **k)
        r.add_orbital(*a, **k)
    m = 0
    for i in range(n):
        for j in range(n):
            m += 1
            if (m * 0.618034) % 1 >= part:
                continue
            rn = [(0, 0, 0), (1, 0, 0), (0, -1, 0), (0, 0, 1), (-1, 1, 0), (0, 1, -1), (2, 0, -1)][m % 7]
            if rn == (0, 0, 0) and i == j:
                continue
            e = complex(m % 5 - 2, m % 3 - 1) or 0.5
            c.add_hopping(rn, i, j, e)
            r.add_hopping(rn, i, j, e)
    return c, r


def big(ctx, n, k):
    """Edits of a large cell."""
    c, r = dense(n)
    deep = n < 20
    if k % 2:
        c.sync_array()
    if k == 1:
        for i in range(n):
            for o in (c, r):
                o.set_orbital(i, energy=0.01 * i * i, label=str(i % 3), position=(0.01 * i, -0.02 * i, 0.5))
    elif k == 2:
        idx = [i for i in range(n) if (i * i + i) % 5 in (0, 2)]
        c.remove_orbitals(idx)
        r.remove_orbitals(idx)
    elif k == 3:
        for i in range(n - 1, n // 2, -2):
            c.remove_orbital(i)
            r.remove_orbitals([i])
    elif k == 4:
        for m, (rn, i, j) in enumerate(list(r.hops)):
            if m % 3:
                for o in (c, r):
                    o.remove_hopping(rn, i, j)
        for o in (c, r):
            o.trim()
    elif k == 5:
        d = tb.HopDict(n)
        for rn in ((0, 0, 0), (1, 2, 0), (0, -1, 0)):
            m = np.array([[(i - 2 * j) % 7 * 0.25 + 0.125j * ((i * j) % 3) if i != j else 0 for j in range(n)] for i in range(n)])
            m = np.triu(m)
            d[rn] = m
            for i, j in np.argwhere(m != 0):
                r.add_hopping(rn, i, j, m[i, j])
        c.add_hopping_dict(d)
    ctx.step()
    ref.check_cell(ctx, c, r, deep=deep)
    h = np.zeros((r.n, r.n), complex)
    c.set_ham_dense(np.array([0.3, -0.1, 0.7]), h)
    ctx.close(h, r.ham((0.3, -0.1, 0.7)), "Hamiltonian of a large cell", 1e-8)


def huge(ctx, n):
    """Terms between orbitals of large index: both orders, overwritten, read back and removed."""
    c, r = tb.PrimitiveCell(LAT, unit=1.0), ref.Cell(LAT, unit=1.0)
    for i in range(n):
        for o in (c, r):
            o.add_orbital((0.001 * i, 0.5 - 0.002 * i, 0.25), 0.5 - 0.003 * i)
    top = [n - 1, n - 2, n // 2 + 1, 130 % n, 7, 1, 0]
    for rn in ((0, 0, 0), (0, 0, 1), (0, -1, 0), (2, -1, 0)):
        for x, (i, j) in enumerate(itertools.product(top, repeat=2)):
            if rn == (0, 0, 0) and i == j:
                continue
            for o in (c, r):
                o.add_hopping(rn, i, j, 0.1 * x + 0.5 - 0.07j * (i % 5 + j % 3))
            ctx.step()
    ref.check_cell(ctx, c, r, deep=False)
    for rn in ((0, 0, 0), (0, 0, -1), (0, 1, 0), (2, -1, 0)):
        for i, j in itertools.product(top, repeat=2):
            if rn == (0, 0, 0) and i == j:
                continue
            ctx.close(c.get_hopping(rn, i, j), r.get_hopping(rn, i, j), f"term {rn} {i} {j} of {n} orbitals", 1e-12)
    for o in (c, r):
        for i, j in ((0, n - 1), (n - 2, 1), (n // 2 + 1, n - 1)):
            o.remove_hopping((0, 0, 0), i, j)
            o.remove_hopping((0, 0, -1), i, j)
    ref.check_cell(ctx, c, r, deep=False)
    gone = [0, 5, n // 2, n - 2]
    c.remove_orbitals(gone)
    r.remove_orbitals(gone)
    ref.check_cell(ctx, c, r, deep=False)
    for o in (c, r):
        o.add_hopping((0, 0, 0), r.n - 1, 0, 0.25j)
        o.add_hopping((0, 0, 0), 0, r.n - 1, 0.75j)
        o.trim()
    ref.check_cell(ctx, c, r, deep=False)


def wide(ctx, what, arg):
    ctx.state("wide", what, tuple(arg))
    if what == "huge":
        huge(ctx, *arg)
        ctx.trace(f"wide {what} {arg}")
        return
    if what == "big":
        big(ctx, *arg)
        ctx.trace(f"wide {what} {arg}")
        return
    if what == "alias":
        # arrays of the caller may change afterwards
        for unit in (1.0, 0.1, 2.5):
            lat, org = np.array(LAT), np.array([0.3, -0.2, 0.7])
            c = tb.PrimitiveCell(lat, org, unit=unit)
            r = ref.Cell(LAT, (0.3, -0.2, 0.7), unit)
            pos = [0.25, 0.5, 0.1]
            c.add_orbital(pos, 0.5, "a")
            r.add_orbital((0.25, 0.5, 0.1), 0.5, "a")
            if arg[0]:
                lat *= 3
                org += 1
                pos[0] = 9.0
            c.add_orbital(np.array([0.75, 0.0, 0.2]), 1.5, "b")
            r.add_orbital((0.75, 0.0, 0.2), 1.5, "b")
            c.add_orbital_cart(np.array([0.2, 0.3, 0.4]), unit=1.0, energy=-1.0, label="c")
            r.add_orbital(r.frac(np.array([0.2, 0.3, 0.4])), -1.0, "c")
            rn = [1, 0, 0]
            c.add_hopping(rn, 0, 1, 1.0)
            r.add_hopping((1, 0, 0), 0, 1, 1.0)
            rn[0] = 5
            lat += 1
            org *= 2
            ref.check_cell(ctx, c, r)
            ctx.step()
        # lattices as lists, integer, single-precision and Fortran-ordered arrays and strided views
        mat = [[2, 1, 0], [-1, 3, 0], [0, 0, 4]]
        wide3 = np.zeros((6, 3))
        wide3[::2] = mat
        for unit in (1.0, 0.5, 2):
            for lat in (mat, np.array(mat), np.array(mat, np.float32), np.asfortranarray(mat, float),
                        np.array(mat, float).T.copy().T, wide3[::2]):
                for org in ((1, 2, 0), [0.5, 0, 1], np.array([1, 2, 3])):
                    c = tb.PrimitiveCell(lat, org, unit=unit)
                    r = ref.Cell(mat, tuple(float(x) for x in org), unit)
                    for p in ((0.25, 0.5), [0.5, 0, 1], np.array([0.125, 0, 0.75])):
                        c.add_orbital(p, 1)
                        r.add_orbital(tuple(float(x) for x in p), 1)
                    for rn, i, j, e in (([1, 0], 0, 1, 1), (np.array([0, 1, -1]), 0, 2, 2), ((0, 0), 2, 1, 1j)):
                        c.add_hopping(rn, i, j, e)
                        r.add_hopping(tuple(int(x) for x in rn), i, j, e)
                    ref.check_cell(ctx, c, r)
                    if arg[0]:
                        new = np.asarray(lat) * 2
                        for x in (new, np.asfortranarray(new), new.tolist()):
                            c.reset_lattice(x, org, unit=1.0, fix_orb=False)
                            r.reset_lattice(new.tolist(), tuple(float(x) for x in org), unit=1.0, fix_orb=False)
                            ref.check_cell(ctx, c, r, deep=False)
                            c.reset_lattice(x, org, unit=unit, fix_orb=True)
                            r.reset_lattice(new.tolist(), tuple(float(x) for x in org), unit=unit, fix_orb=True)
                            ref.check_cell(ctx, c, r, deep=False)
                    ctx.step()
    elif what == "rm2":
        i = arg[0]
        sets = [(i, j) for j in range(18) if j != i] + [(i, j, k) for j in range(i) for k in range(j)]
        sets += [tuple((7 * i + 11 * t) % 18 for t in range(m)) for m in range(4, 18)]
        for idx in sets:
            c, r = dense(18, 0.2)
            c.remove_orbitals(list(idx))
            r.remove_orbitals(list(idx))
            ctx.step()
            ref.check_cell(ctx, c, r, deep=False)
    elif what == "rm":
        for conv in (list, tuple, set, lambda x: np.array(x, dtype=int), reversed):
            c, r = dense()
            c.remove_orbitals(conv(arg))
            r.remove_orbitals(arg)
            ctx.step()
            ref.check_cell(ctx, c, r)
    elif what == "pbc":
        c, r = dense()
        c.apply_pbc(tuple(bool(x) for x in arg))
        r.apply_pbc(arg)
        ctx.step()
        ref.check_cell(ctx, c, r)
    elif what == "val":
        e, l, p = V_ENG[arg[0]], V_LAB[arg[1]], V_POS[arg[2]]
        for cart in (False, True):
            for i in range(3):
                for rd in (False, True):
                    c, r = start("three")
                    if rd:
                        c.orb_pos, c.orb_eng
                    n = "set_orbital_cart" if cart else "set_orbital"
                    getattr(c, n)(i, position=p, energy=e, label=l)
                    getattr(r, n)(i, position=p, energy=e, label=l)
                    ctx.step()
                    ref.check_cell(ctx, c, r)
            if p is not None and e is not None and l is not None:
                c, r = start("three")
                n = "add_orbital_cart" if cart else "add_orbital"
                getattr(c, n)(p, energy=e, label=l)
                getattr(r, n)(p, energy=e, label=l)
                ctx.step()
                ref.check_cell(ctx, c, r)
    elif what == "hval":
        for rn in ((0, 0), (0, 0, 0), (1, 0), (-1, 0, 0), (0, -1), (0, 0, -1), (0, 0, 2)):
            for i, j in itertools.product(range(3), range(3)):
                if not any(rn) and i == j:
                    continue
                c, r = start("three")
                c.add_hopping(rn, i, j, V_HOP[arg[0]])
                r.add_hopping(rn, i, j, V_HOP[arg[0]])
                ctx.step()
                ref.check_cell(ctx, c, r)
                c.remove_hopping(rn, i, j)
                r.remove_hopping(rn, i, j)
                ctx.step()
                ref.check_cell(ctx, c, r)
    else:
        rn = tuple(arg)
        neg = tuple(-x for x in rn)
        for i in range(3):
            for j in range(3):
                if rn == (0, 0, 0) and i == j:
                    continue
                c, r = start("three")
                for q, a, b, e in ((rn, i, j, 1 + 2j), (neg, j, i, -0.5 + 1j), (rn, i, j, 3)):
                    c.add_hopping(q, a, b, e)
                    r.add_hopping(q, a, b, e)
                    ctx.step()
                    ref.check_cell(ctx, c, r)
                c.remove_hopping(neg, j, i)
                r.remove_hopping(neg, j, i)
                ctx.step()
                ref.check_cell(ctx, c, r)
    ctx.trace(f"wide {what} {arg}")


def play(kind, seq):
    c, r = start(kind)
    for o in seq:
        guard, act = OPS[o]
        if not guard(r):
            return None
        act(c, r)
    return c, r


def one(ctx, kind, seq):
    cr = play(kind, seq)
    if cr is None:
        return False
    c, r = cr
    ctx.case = [kind, "1", list(seq)]
    ctx.step(max(1, len(seq)))
    ctx.state(kind, r.key())
    try:
        ref.check_cell(ctx, c, r)
    except Exception as e:
        ctx.fail(f"after {kind}: {' '.join(seq)}: {type(e).__name__}: {e}")
    ctx.trace(f"{kind}: {' '.join(seq)}")
    return True


def run(case, ctx):
    kind, mode, seq = case
    if kind == "wide":
        wide(ctx, mode, seq)
        return
    if mode in ("all", "1"):
        one(ctx, kind, seq)
        return
    if not one(ctx, kind, seq):
        return
    if mode in (2, 3, 4):
        ext, n = NAMES, mode - 2
    else:
        ext, n = CORE, int(mode[4:]) - 2

    def rec(seq, left):
        if left == 0:
            return
        for o in ext:
            if one(ctx, kind, seq + [o]):
                rec(seq + [o], left - 1)
    if mode in (2, 3, 4):
        rec(seq, n)
    else:
        # shorter ones are covered by the full alphabet
        rec(seq, n)
