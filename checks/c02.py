"""C02: refused edits change nothing: every invalid call in every bounded state."""
import itertools

import numpy as np
import tbplas as tb

from lib import ref
from checks import c01

# ---------------------------------------------------------------- primitive cell


def _bad_dict(kind, n):
    d = tb.HopDict(n)
    good = np.zeros((n, n), complex)
    good[0, 1] = -7.0
    d[(0, 0)] = good
    if kind == "late":        # the last block names orbitals the cell does not have
        d2 = tb.HopDict(n + 1)
        g = np.zeros((n + 1, n + 1), complex)
        g[0, 1] = -7.0
        d2[(0, 0)] = g
        b = np.zeros((n + 1, n + 1), complex)
        b[1, n] = 1.0
        b[0, 1] = 2.0
        d2[(1, 0)] = b
        return d2
    if kind == "diag":        # an on-site term slipped in behind the check
        m = np.zeros((n, n), complex)
        m[0, 1] = 5.0
        d[(1, 0)] = m
        d[(0, 0)][n - 1, n - 1] = 3.0
    return d


def p_bad(n, r):
    """name -> call on the cell which must be refused (n orbitals)."""
    b = {}

    def add(name, f):
        b[name] = f
    for k in (0, 1, 4):
        p = tuple(0.1 * x for x in range(k))
        add(f"add_orbital len {k}", lambda c, p=p: c.add_orbital(p, energy=9.0))
        add(f"add_orbital_cart len {k}", lambda c, p=p: c.add_orbital_cart(p, energy=9.0))
        if n:
            add(f"set_orbital len {k}", lambda c, p=p: c.set_orbital(0, position=p, energy=9.0,
                                                                      label="bad"))
            add(f"set_orbital_cart len {k}",
                lambda c, p=p: c.set_orbital_cart(0, position=p, energy=9.0, label="bad"))
    for i in (n, n + 3):
        add(f"set_orbital {i}", lambda c, i=i: c.set_orbital(i, position=(0.1, 0.2), energy=9.0))
        add(f"set_orbital_cart {i}",
            lambda c, i=i: c.set_orbital_cart(i, position=(0.1, 0.2), energy=9.0))
        add(f"set_orbital eng {i}", lambda c, i=i: c.set_orbital(i, energy=9.0))
        add(f"get_orbital {i}", lambda c, i=i: c.get_orbital(i))
    for i in (n, -1, n + 3):
        add(f"remove_orbital {i}", lambda c, i=i: c.remove_orbital(i))
        add(f"remove_orbitals [{i}]", lambda c, i=i: c.remove_orbitals([i]))
        if n:
            for pos in range(3):
                lst = [0, n - 1]
                lst.insert(pos, i)
                add(f"remove_orbitals {lst}", lambda c, l=tuple(lst): c.remove_orbitals(list(l)))
                add(f"remove_orbitals arr {lst}",
                    lambda c, l=tuple(lst): c.remove_orbitals(np.array(l)))
        if n:
            for rn in ((0, 0), (1, 0, 0), (0, -1)):
                add(f"add_hopping {rn} 0 {i}", lambda c, rn=rn, i=i: c.add_hopping(rn, 0, i, 9.0))
                add(f"add_hopping {rn} {i} 0", lambda c, rn=rn, i=i: c.add_hopping(rn, i, 0, 9.0))
                add(f"get_hopping {rn} {i} 0", lambda c, rn=rn, i=i: c.get_hopping(rn, i, 0))
                add(f"get_hopping {rn} 0 {i}", lambda c, rn=rn, i=i: c.get_hopping(rn, 0, i))
                add(f"remove_hopping {rn} {i} 0", lambda c, rn=rn, i=i: c.remove_hopping(rn, i, 0))
                add(f"remove_hopping {rn} 0 {i}", lambda c, rn=rn, i=i: c.remove_hopping(rn, 0, i))
    if n > 1:
        for rn in ((), (0,), (0, 0, 0, 0)):
            add(f"add_hopping rn {rn}", lambda c, rn=rn: c.add_hopping(rn, 0, 1, 9.0))
            add(f"get_hopping rn {rn}", lambda c, rn=rn: c.get_hopping(rn, 0, 1))
            add(f"remove_hopping rn {rn}", lambda c, rn=rn: c.remove_hopping(rn, 0, 1))
        for rn, i, j in itertools.product(((0, 0, 0), (1, 0, 0), (0, 3, -1)), range(n), range(n)):
            if (rn == (0, 0, 0) and i == j) or r.get_hopping(rn, i, j) is None:
                add(f"get_hopping absent {rn} {i} {j}", lambda c, a=(rn, i, j): c.get_hopping(*a))
                add(f"remove_hopping absent {rn} {i} {j}",
                    lambda c, a=(rn, i, j): c.remove_hopping(*a))
        add("add_hopping_dict diag", lambda c: c.add_hopping_dict(_bad_dict("diag", n)))
        add("add_hopping_dict late", lambda c: c.add_hopping_dict(_bad_dict("late", n)))
    for i in range(n):
        add(f"add_hopping diag {i}", lambda c, i=i: c.add_hopping((0, 0), i, i, 9.0))
        add(f"add_hopping diag3 {i}", lambda c, i=i: c.add_hopping((0, 0, 0), i, i, 9.0))
    for pbc in ((), (True,), (True, False, True, False)):
        add(f"apply_pbc {pbc}", lambda c, p=pbc: c.apply_pbc(p))
    add("reset_lattice shape", lambda c: c.reset_lattice(lat_vec=np.eye(2), origin=np.ones(3)))
    add("reset_lattice 4", lambda c: c.reset_lattice(lat_vec=np.eye(4)))
    add("reset_lattice origin", lambda c: c.reset_lattice(lat_vec=np.eye(3), origin=np.ones(2)))
    add("reset_lattice origin only", lambda c: c.reset_lattice(origin=np.ones(4), fix_orb=False))
    if n and r.hops:
        def conv3(c):
            h = np.zeros((n, n), complex)
            try:
                c.set_ham_dense(np.zeros(3), h, 3)
            except Exception:
                if np.any(h):
                    raise AssertionError("Hamiltonian written though refused")
                raise
        add("set_ham_dense convention", conv3)
        add("set_ham_csr convention", lambda c: c.set_ham_csr(np.zeros(3), 0))
    return b


LOCKED = {
    "add_orbital": lambda c: c.add_orbital((0.1, 0.1), 1.0),
    "add_orbital_cart": lambda c: c.add_orbital_cart((0.1, 0.1), unit=1.0, energy=1.0),
    "set_orbital": lambda c: c.set_orbital(0, energy=9.0),
    "set_orbital_cart": lambda c: c.set_orbital_cart(0, position=(1., 1.), energy=9.0),
    "remove_orbital": lambda c: c.remove_orbital(0),
    "remove_orbitals": lambda c: c.remove_orbitals([0]),
    "remove_orbitals none": lambda c: c.remove_orbitals([0, 1]),
    "add_hopping": lambda c: c.add_hopping((0, 0), 0, 1, 9.0),
    "add_hopping_dict": lambda c: c.add_hopping_dict(_bad_dict("ok", c.num_orb)),
    "remove_hopping": lambda c: c.remove_hopping(*_first(c)),
    "trim": lambda c: c.trim(),
    "apply_pbc": lambda c: c.apply_pbc((False, False, False)),
    "reset_lattice": lambda c: c.reset_lattice(lat_vec=2 * np.eye(3)),
    "reset_lattice o": lambda c: c.reset_lattice(origin=np.ones(3), fix_orb=False),
}


def _first(c):
    h = np.asarray(c.hop_ind)[0]
    return tuple(int(x) for x in h[:3]), int(h[3]), int(h[4])


# ---------------------------------------------------------------- HopDict


def hd_make():
    d = tb.HopDict(2)
    m = np.array([[0, 1 + 1j], [0, 0]])
    d[(0, 0)] = m
    d[(1, 0)] = np.array([[0.5, 0], [0, 0]])
    return d


def hd_state(d):
    return {rn: np.array(d[rn]).tolist() for rn in ((0, 0), (1, 0), (0, 1), (0, 0, 1))}


HD_BAD = {
    "shape33": lambda d: d.__setitem__((0, 1), np.ones((3, 3))),
    "shape12": lambda d: d.__setitem__((0, 1), np.ones((1, 2))),
    "shape3over": lambda d: d.__setitem__((1, 0), np.ones((3, 3))),
    "rn1": lambda d: d.__setitem__((1,), np.ones((2, 2))),
    "rn4": lambda d: d.__setitem__((1, 0, 0, 0), np.ones((2, 2))),
    "diag": lambda d: d.__setitem__((0, 0), np.eye(2)),
    "diag1": lambda d: d.__setitem__((0, 0, 0), np.array([[0, 9.0], [9.0, 1.0]])),
    **{f"diag {x}": (lambda d, x=x: d.__setitem__((0, 0), np.array([[0, 2.0], [2.0, x]])))
       for x in (-1.0, 0.05, -0.002, 1e-4, 2e-5, 0.3j, -1e-3j, 1e-4 + 1e-4j)},
    "get rn1": lambda d: d[(1,)],
    "get rn4": lambda d: d[(1, 0, 0, 0)],
}

# ---------------------------------------------------------------- super cell, sample


def small():
    r = ref.Cell([[1.0, 0.1, 0], [-0.2, 1.2, 0], [0, 0, 2.0]], (0.1, 0.2, 0.3), 1.0)
    r.add_orbital((0.1, 0.2), 0.5, "A")
    r.add_orbital((0.6, 0.7, 0.1), -0.25, "B")
    r.add_hopping((0, 0), 0, 1, -1.0 + 0.5j)
    r.add_hopping((1, 0), 0, 1, 0.75)
    r.add_hopping((0, 1), 1, 1, 0.3j)
    return r


class World:
    """A hierarchy of implementation objects and its references."""

    def __init__(self, hist=()):
        self.r = small()
        self.c = ref.build_cell(tb, self.r)
        self.s = [ref.SC(self.r, (3, 3, 1), (1, 0, 0), [(0, 0, 0, 1)]),
                  ref.SC(self.r, (3, 4, 1), (0, 1, 0))]
        self.sc = [ref.build_sc(tb, self.c, s) for s in self.s]
        self.terms = {((0, 0, 0), 0, 3): 0.5j, ((1, 0, 0), 2, 1): -0.25}
        self.h = tb.SCInterHopping(self.sc[0], self.sc[1])
        for k, e in self.terms.items():
            self.h.add_hopping(*k, e)
        self.smp = None
        for o in hist:
            getattr(self, o)()

    # valid operations
    def read(self):
        self.sc[0].get_hop(), self.sc[0].get_orb_pos(), self.h.get_hop()

    def vac(self):
        self.sc[0].add_vacancies([(1, 1, 0, 0), (2, 2, 0, 1)])
        self.s[0].vac |= {(1, 1, 0, 0), (2, 2, 0, 1)}

    def hop(self):
        self.sc[0].add_hopping((0, 0), 0, 7, 2.0)
        self.s[0].add_hopping((0, 0), 0, 7, 2.0)

    def trim(self):
        self.sc[0].trim()
        self.s[0].trim()

    def mod(self):
        self.sc[0].set_orb_pos_modifier(ref.posmod("bend"))
        self.s[0].mod = "bend"

    def sample(self):
        self.smp = tb.Sample(*self.sc, self.h)
        self.smp.rescale_ham(4.0)

    def check(self, ctx, what):
        ref.check_cell(ctx, self.c, self.r, what="cell " + what)
        for sc, s in zip(self.sc, self.s):
            ref.check_sc(ctx, sc, s, what="super cell " + what)
        m = ref.Smp(self.s, [(0, 1, self.terms)])
        got = {k: e for k, e in ((tuple(rn) + p, complex(e)) for rn, d in self.h.hoppings.items()
                                 for p, e in d.items())}
        ctx.equal(got, {k[0] + k[1:]: complex(e) for k, e in self.terms.items()},
                  "inter-hopping " + what)
        if self.smp is not None:
            ref.check_sample(ctx, self.smp, m, rescale=4.0, what="sample " + what)


S_OPS = ["read", "vac", "hop", "mod", "trim"]


def s_bad(w):
    b = {}
    n = w.sc[0].num_orb_sc
    badv = [(3, 0, 0, 0), (0, 3, 0, 0), (0, 0, 1, 0), (0, 0, 0, 2), (-1, 0, 0, 0), (0, -1, 0, 0),
            (0, 0, -1, 0), (0, 0, 0, -1), (0, 0, 0), (0, 0, 0, 0, 0)]
    for v in badv:
        b[f"add_vacancy {v}"] = lambda w, v=v: w.sc[0].add_vacancy(v)
        for pos in range(3):
            lst = [(2, 0, 0, 0), (0, 2, 0, 1)]
            lst.insert(pos, v)
            b[f"add_vacancies {lst}"] = lambda w, l=tuple(lst): w.sc[0].add_vacancies(list(l))
            b[f"set_vacancies {lst}"] = lambda w, l=tuple(lst): w.sc[0].set_vacancies(list(l))
            if len(v) == 4:
                b[f"add_vacancies arr {lst}"] = lambda w, l=tuple(lst): w.sc[0].add_vacancies(
                    np.array(l))
            b[f"ctor vac {lst}"] = lambda w, l=tuple(lst): tb.SuperCell(w.c, (3, 3, 1), vacancies=list(l))
    for i in (n, -1, n + 5):
        for rn in ((0, 0), (1, 0, 0)):
            b[f"sc add_hopping {rn} {i} 0"] = lambda w, a=(rn, i, 0): w.sc[0].add_hopping(*a, 9.0)
            b[f"sc add_hopping {rn} 0 {i}"] = lambda w, a=(rn, 0, i): w.sc[0].add_hopping(*a, 9.0)
        b[f"sc2pc {i}"] = lambda w, i=i: w.sc[0].orb_id_sc2pc(i)
        for pos in range(3):
            l = [0, n - 1]
            l.insert(pos, i)
            b[f"sc2pc arr {l}"] = lambda w, l=tuple(l): w.sc[0].orb_id_sc2pc_array(np.array(l))
    for rn in ((), (0,), (0, 0, 0, 0)):
        b[f"sc add_hopping rn {rn}"] = lambda w, rn=rn: w.sc[0].add_hopping(rn, 0, 1, 9.0)
        b[f"inter add_hopping rn {rn}"] = lambda w, rn=rn: w.h.add_hopping(rn, 0, 1, 9.0)
        b[f"inter get_hopping rn {rn}"] = lambda w, rn=rn: w.h.get_hopping(rn, 0, 1)
        b[f"inter remove_hopping rn {rn}"] = lambda w, rn=rn: w.h.remove_hopping(rn, 0, 1)
        b[f"ctor dim {rn}"] = lambda w, rn=rn: tb.SuperCell(w.c, (3,) * len(rn) if len(rn) != 3 else (3,))
        b[f"ctor pbc {rn}"] = lambda w, rn=rn: tb.SuperCell(w.c, (3, 3, 1), pbc=rn)
    for i in (0, n - 1):
        b[f"sc add_hopping diag {i}"] = lambda w, i=i: w.sc[0].add_hopping((0, 0), i, i, 9.0)
    b["ctor dim small"] = lambda w: tb.SuperCell(w.c, (2, 3, 1))
    b["ctor dim small2"] = lambda w: tb.SuperCell(w.c, (3, 2, 1))
    b["ctor dim 0"] = lambda w: tb.SuperCell(w.c, (3, 3, 0))
    b["sample void"] = lambda w: tb.Sample()
    b["sample type"] = lambda w: tb.Sample(w.sc[0], w.c)
    b["sample type last"] = lambda w: tb.Sample(w.sc[0], w.sc[1], w.h, "x")
    b["sample closure bra"] = lambda w: tb.Sample(w.sc[1], w.h)
    b["sample closure ket"] = lambda w: tb.Sample(w.sc[0], w.h)
    return b


S_LOCKED = {
    "add_vacancy": lambda w: w.sc[0].add_vacancy((2, 0, 0, 0)),
    "add_vacancies": lambda w: w.sc[0].add_vacancies([(2, 0, 0, 0)]),
    "set_vacancies": lambda w: w.sc[0].set_vacancies([(2, 0, 0, 0)]),
    "set_vacancies none": lambda w: w.sc[0].set_vacancies(),
    "set_vacancies empty": lambda w: w.sc[1].set_vacancies([]),
    "add_hopping": lambda w: w.sc[0].add_hopping((0, 0), 0, 2, 9.0),
    "set_orb_pos_modifier": lambda w: w.sc[0].set_orb_pos_modifier(ref.posmod("shift")),
    "trim": lambda w: w.sc[0].trim(),
    "inter add": lambda w: w.h.add_hopping((0, 0), 1, 1, 9.0),
    "inter add over": lambda w: w.h.add_hopping((0, 0), 0, 3, 9.0),
    "inter remove": lambda w: w.h.remove_hopping((0, 0), 0, 3),
    "inter remove rn": lambda w: w.h.remove_rn((0, 0, 0)),
    "inter remove orb": lambda w: w.h.remove_orbital(0),
    "inter remove orbs": lambda w: w.h.remove_orbitals([0]),
    "gauge": lambda w: w.smp.set_magnetic_field(10.0, gauge=3),
    "gauge -1": lambda w: w.smp.set_magnetic_field(10.0, gauge=-1),
    "convention dense": lambda w: w.smp.set_ham_dense(np.zeros(3), np.zeros((w.smp.num_orb,) * 2,
                                                                           complex), 2),
    "convention csr": lambda w: w.smp.set_ham_csr(np.zeros(3), 2),
    "cell add_hopping": lambda w: w.c.add_hopping((0, 0), 0, 1, 9.0),
    "cell add_orbital": lambda w: w.c.add_orbital((0.3, 0.3), 9.0),
    "cell remove": lambda w: w.c.remove_orbital(0),
}

BOUNDS = {"quick": "every invalid call in every state reached by at most 2 of the core edits of C01 "
                   "from 3 cells (1 of them followed by a lock), every invalid call of super cells, "
                   "inter-hoppings and samples after every permutation of at most 3 valid ones",
          "thorough": "the same after at most 3 core edits and at most 4 valid operations"}
CHUNK = 2


def cases(tier):
    deep = 2 if tier == "quick" else 3
    for kind in c01.STARTS:
        for d in range(deep + 1):
            for seq in itertools.product(c01.CORE, repeat=d):
                yield ["P", kind, list(seq)]
    for kind in ("three", "two"):
        for d in range(2 if tier == "quick" else 3):
            for seq in itertools.product(c01.CORE, repeat=d):
                yield ["L", kind, list(seq)]
    yield ["H"]
    yield ["C"]
    deep = 3 if tier == "quick" else 4
    for d in range(deep + 1):
        for seq in itertools.permutations(S_OPS, d):
            yield ["S", list(seq)]
            yield ["SL", list(seq)]


def refuse(ctx, call, name, hist):
    ctx.step()
    ctx.raises(call, f"{name} after {hist}")


def run(case, ctx):
    t = case[0]
    if t in ("P", "L"):
        _, kind, seq = case
        if c01.play(kind, seq) is None:
            return
        c, r = c01.play(kind, seq)
        if t == "L":
            if not (r.n and r.hops):
                return
            tb.SuperCell(c, (7, 7, 7))
            if r.n < 2:
                return
            bad = dict(LOCKED)
            bad.update({k: v for k, v in p_bad(r.n, r).items() if "set_ham" not in k})
        else:
            bad = p_bad(r.n, r)
        ctx.state(t, r.key())
        # one after the other on the same object, whose arrays stay fresh or stale
        for name, f in bad.items():
            refuse(ctx, lambda: f(c), name, (t, kind, seq))
            ref.check_cell(ctx, c, r, deep=False, what=f"cell after refused {name}")
        ref.check_cell(ctx, c, r, what="cell after all refusals")
        # and each on an object of its own, nothing read before
        if t == "P":
            for name, f in bad.items():
                c, r2 = c01.play(kind, seq)
                refuse(ctx, lambda: f(c), name, (t, kind, seq))
                ref.check_cell(ctx, c, r2, deep=False, what=f"fresh cell after refused {name}")
                # the cell is still usable
                if c.num_orb > 1:
                    c.add_hopping((0, 0, 2), 0, 1, 0.5j)
                    r2.add_hopping((0, 0, 2), 0, 1, 0.5j)
                    ref.check_cell(ctx, c, r2, deep=False, what=f"cell used after refused {name}")
                ctx.trace(f"{kind} {seq} then refused {name}")
        else:
            ctx.trace(f"locked {kind} {seq}")
        return
    if t == "H":
        for name, f in HD_BAD.items():
            d = hd_make()
            before = hd_state(d)
            refuse(ctx, lambda: f(d), f"HopDict {name}", "")
            ctx.equal(hd_state(d), before, f"HopDict after refused {name}")
            c = tb.PrimitiveCell()
            c.add_orbital((0, 0))
            c.add_orbital((0.5, 0.5))
            c.add_hopping_dict(d)
            r = ref.Cell(np.eye(3))
            r.lat = c.lat_vec
            r.add_orbital((0, 0))
            r.add_orbital((0.5, 0.5))
            r.add_hopping((0, 0), 0, 1, 1 + 1j)
            r.add_hopping((1, 0), 0, 0, 0.5)
            ref.check_cell(ctx, c, r, what=f"cell from HopDict after refused {name}")
            ctx.trace(name)
        return
    if t == "C":
        for bad in (np.eye(2), np.ones(3), np.eye(4)):
            refuse(ctx, lambda: tb.PrimitiveCell(bad), "PrimitiveCell(lat)", "")
        for bad in (np.ones(2), np.eye(3)):
            refuse(ctx, lambda: tb.PrimitiveCell(np.eye(3), bad), "PrimitiveCell(origin)", "")
        e = tb.PrimitiveCell()
        refuse(ctx, lambda: tb.SuperCell(e, (3, 3, 1)), "SuperCell of empty cell", "")
        e.add_orbital((0, 0), 1.0)
        refuse(ctx, lambda: tb.SuperCell(e, (3, 3, 1)), "SuperCell without hopping", "")
        e.add_orbital((0.5, 0), 1.0)
        e.add_hopping((0, 0), 0, 1, 1.0)
        ctx.equal(e.num_orb, 2, "cell stays usable")
        ctx.trace("constructors")
        return
    hist = case[1]
    if t == "S":
        names = list(s_bad(World(hist)))
        ctx.state("S", tuple(hist))
        w = World(hist)
        bad = s_bad(w)
        for name in names:
            refuse(ctx, lambda: bad[name](w), name, hist)
        w.check(ctx, "after all refusals")
        for name in names:
            w = World(hist)
            refuse(ctx, lambda: bad[name](w), name, hist)
            # the ingredients are still unlocked and unchanged, hence usable
            w.check(ctx, f"after refused {name}")
            w.sc[0].add_hopping((0, 0), 0, 2, 0.125)
            w.s[0].add_hopping((0, 0), 0, 2, 0.125)
            w.h.add_hopping((0, 1), 1, 1, 0.5)
            w.terms[((0, 1, 0), 1, 1)] = 0.5
            w.sample()
            w.check(ctx, f"used after refused {name}")
            ctx.trace(f"{hist} refused {name}")
        # the primitive cell is not locked by failed constructions
        r = small()
        c = ref.build_cell(tb, r)
        for name in names:
            if name.startswith("ctor"):
                w.c = c
                refuse(ctx, lambda: bad[name](w), name, hist)
                c.set_orbital(0, energy=1.25)
                r.set_orbital(0, energy=1.25)
                ref.check_cell(ctx, c, r, what=f"cell after {name}")
        return
    # SL
    if "trim" in hist:
        pass
    ctx.state("SL", tuple(hist))
    w = World(list(hist) + ["sample"])
    for name, f in S_LOCKED.items():
        refuse(ctx, lambda: f(w), "locked " + name, hist)
        w.check(ctx, f"after refused {name}")
        ctx.trace(f"{hist} locked {name}")
    for name, f in s_bad(w).items():
        if name.startswith(("add_vac", "set_vac", "sc add", "inter add", "inter remove")):
            refuse(ctx, lambda: f(w), "locked " + name, hist)
    w.check(ctx, "after all refusals")
