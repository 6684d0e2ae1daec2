"""C03: locks and freshness: all bounded histories over a cell/super cell/sample hierarchy."""
import itertools

import numpy as np
import tbplas as tb

from lib import ref

LOCKED, FREE, ANY = "locked", "free", "any"


class World:
    def __init__(self, start):
        r = ref.Cell([[1.0, 0.1, 0], [-0.2, 1.2, 0], [0, 0, 2.0]], (0.1, 0.2, 0.3), 1.0)
        r.add_orbital((0.1, 0.2), -1.0, "A")
        r.add_orbital((0.6, 0.7, 0.1), -2.0, "B")
        r.add_hopping((0, 0), 0, 1, -1.0)
        r.add_hopping((1, 0), 1, 0, 0.75j)
        self.r = r
        self.c = ref.build_cell(tb, r)
        self.s = [ref.SC(r, (3, 1, 1), (1, 0, 0)), ref.SC(r, (4, 1, 1), (0, 0, 0), [(1, 0, 0, 1)])]
        self.sc = [None, None]
        self.t = {((0, 0, 0), 0, 3): 0.5j}
        self.h = None
        self.smp = None
        self.fresh = False          # the arrays of the sample must equal the model
        self.lock = {"c": FREE, 0: FREE, 1: FREE, "h": FREE}
        self.tick = 0
        self.seen = [None, None]
        if start >= 1:
            self.sc1()
        if start >= 2:
            self.sc2()
            self.inter()
            self.sample()
        if start >= 3:
            self.rsmp()

    # ------------------------------------------------ construction
    def _sc(self, i):
        if self.sc[i] is not None:
            return False
        self.sc[i] = ref.build_sc(tb, self.c, self.s[i])
        self.lock["c"] = LOCKED
        self.seen[i] = self._key(i)

    def _key(self, i):
        return self.r.key()[2:], sorted(self.s[i].vac)

    def _synced(self, *which):
        """Super cells were brought up to date: if cell or vacancies had changed, the cell is locked again."""
        for i in which:
            if self.sc[i] is None:
                continue
            if self.seen[i] is not None and self.seen[i] != self._key(i):
                self.lock["c"] = LOCKED
            self.seen[i] = self._key(i)

    def _resampled(self):
        """The sample was brought up to date: its parts are locked again."""
        if self.smp is not None:
            self.fresh = True
            for k in (0, 1, "h"):
                self.lock[k] = LOCKED

    def sc1(self):
        return self._sc(0)

    def sc2(self):
        return self._sc(1)

    def inter(self):
        if self.h is not None or None in self.sc:
            return False
        self.h = tb.SCInterHopping(*self.sc)
        for k, e in self.t.items():
            self.h.add_hopping(*k, e)

    def sample(self):
        if self.smp is not None or self.h is None:
            return False
        self.smp = tb.Sample(self.sc[0], self.sc[1], self.h)
        for k in (0, 1, "h"):
            self.lock[k] = LOCKED
        self.fresh = True
        self.init = False

    # ------------------------------------------------ unlock and lock state
    def ul_c(self):
        self.c.unlock()
        self.lock["c"] = FREE

    def ul_s(self):
        if self.sc[0] is None:
            return False
        self.sc[0].unlock()
        self.lock[0] = FREE

    def ul_h(self):
        if self.h is None:
            return False
        self.h.unlock()
        self.lock["h"] = FREE

    def _reading(self):
        """Reading a derived object may lock what it depends on again."""
        for k in self.lock:
            if self.lock[k] == FREE and self._dep(k):
                self.lock[k] = ANY

    def _dep(self, k):
        return any(self.sc) if k == "c" else self.smp is not None

    # ------------------------------------------------ modifications
    def _edit(self, k, obj, f, g):
        """Edit f of implementation object, g of the reference, as the lock dictates."""
        if obj is None:
            return False
        st = self.lock[k]
        if st == ANY:
            obj.unlock()
            self.lock[k] = FREE
        if st == LOCKED:
            try:
                f()
            except Exception:
                return None
            self.ctx.fail(f"edit of a locked {k} was accepted")
        f()
        g()
        self.fresh = False if (self.smp is not None and self.init) else self.fresh
        self.tick += 1

    def m_eng(self):
        e = -1.0 if self.r.orbs[0][1] != -1.0 else -2.0
        return self._edit("c", self.c, lambda: self.c.set_orbital(0, energy=e),
                          lambda: self.r.set_orbital(0, energy=e))

    def m_pos(self):
        p = (0.3, -1.0 - self.tick, 0.0)
        return self._edit("c", self.c, lambda: self.c.set_orbital(1, position=p),
                          lambda: self.r.set_orbital(1, position=p))

    def m_hop(self):
        e = -1.0 if self.r.get_hopping((0, 0), 0, 1) != -1.0 else -2.0
        return self._edit("c", self.c, lambda: self.c.add_hopping((0, 0), 0, 1, e),
                          lambda: self.r.add_hopping((0, 0), 0, 1, e))

    def m_new(self):
        if self.r.n > 3:
            return False

        def f():
            self.c.add_orbital((0.5, 0.5), energy=3.0)
            self.c.add_hopping((-1, 0), 0, self.c.num_orb - 1, 0.5j)

        def g():
            self.r.add_orbital((0.5, 0.5), energy=3.0)
            self.r.add_hopping((-1, 0), 0, self.r.n - 1, 0.5j)
        return self._edit("c", self.c, f, g)

    def m_lat(self):
        lat = np.diag([1.5 + self.tick, 1.0, 1.0])
        return self._edit("c", self.c, lambda: self.c.reset_lattice(lat_vec=lat, unit=1.0, fix_orb=False),
                          lambda: self.r.reset_lattice(lat, unit=1.0, fix_orb=False))

    def m_vac(self):
        v = (2, 0, 0, 1) if (2, 0, 0, 1) not in self.s[0].vac else (0, 0, 0, 1)
        return self._edit(0, self.sc[0], lambda: self.sc[0].set_vacancies([v]),
                          lambda: setattr(self.s[0], "vac", {v}))

    def m_shop(self):
        e = 2.0 + self.tick

        def g():
            self.s[0].add_hopping((0, 0), 0, 4, e)
        return self._edit(0, self.sc[0], lambda: self.sc[0].add_hopping((0, 0), 0, 4, e), g)

    def m_mod(self):
        m = "bend" if self.s[0].mod is None else None
        return self._edit(0, self.sc[0], lambda: self.sc[0].set_orb_pos_modifier(ref.posmod(m)),
                          lambda: setattr(self.s[0], "mod", m))

    def m_int(self):
        e = 1.0 + self.tick
        return self._edit("h", self.h, lambda: self.h.add_hopping((0, 0), 0, 3, e),
                          lambda: self.t.__setitem__(((0, 0, 0), 0, 3), e))

    # ------------------------------------------------ reads
    def rc(self):
        self.c.orb_pos, self.c.hop_ind, self.c.dr_nm, hash(self.c)

    def rs(self):
        if self.sc[0] is None:
            return False
        self.sc[0].get_orb_eng(), self.sc[0].get_hop()
        self._reading()
        self._synced(0)

    def rsid(self):
        if self.sc[1] is None:
            return False
        self.sc[1].orb_id_sc2pc(0)
        self._reading()
        self._synced(1)

    def rh(self):
        if self.h is None:
            return False
        self.h.get_hop()
        self._reading()
        self.seen = [None, None]

    def rsmp(self):
        if self.smp is None:
            return False
        self.smp.init_orb_eng()
        self.smp.init_orb_pos()
        self.smp.init_hop()
        self.init = True
        self._reading()
        self.seen = [None, None]

    def rset(self):
        if self.smp is None:
            return False
        self.smp.reset_array()
        self._reading()
        self._resampled()
        self.seen = [None, None]

    def upd(self):
        self.c.update()
        self._reading()
        self._synced(0, 1)
        if any(self.sc):
            self._resampled()

    def upd_s(self):
        if self.sc[0] is None:
            return False
        self.sc[0].update()
        self._reading()
        self._synced(0)
        self._resampled()

    def upd_h(self):
        if self.h is None:
            return False
        self.h.update()
        self._reading()
        self._resampled()
        self.seen = [None, None]

    # ------------------------------------------------ verdict
    def check(self, ctx, what):
        edits = {"c": [lambda: self.c.set_orbital(0, energy=77.0), lambda: self.c.add_hopping((0, 0), 0, 1, 5.0)],
                 0: [lambda: self.sc[0].add_vacancy((0, 0, 0, 0)), lambda: self.sc[0].set_orb_pos_modifier(ref.posmod("bend"))],
                 1: [lambda: self.sc[1].add_hopping((0, 0), 0, 2, 1.0), lambda: self.sc[1].set_vacancies([(0, 0, 0, 0)])],
                 "h": [lambda: self.h.add_hopping((0, 0), 0, 0, 1.0), lambda: self.h.remove_hopping((0, 0), 0, 3)]}
        for k, st in self.lock.items():
            if st == LOCKED:
                for f in edits[k]:
                    ctx.raises(f, f"{what}: edit of locked {k}")
        if self.smp is not None and self.fresh:
            m = ref.Smp(self.s, [(0, 1, self.t)])
            if self.init:
                ctx.close(self.smp.orb_eng, m.eng(), f"{what}: orb_eng of existing sample")
                ctx.close(self.smp.orb_pos, m.pos(), f"{what}: orb_pos of existing sample")
            ref.check_sample(ctx, self.smp, m, what=f"{what}: existing sample", ks=((0.2, 0.1, 0),))
        ref.check_cell(ctx, self.c, self.r, deep=False, what=f"{what}: cell")
        for sc, s in zip(self.sc, self.s):
            if sc is not None:
                ref.check_sc(ctx, sc, s, what=f"{what}: super cell")
        if self.h is not None:
            st = (0, self.s[0].n)
            m = ref.Smp(self.s, [(0, 1, self.t)])
            hi, hj, hv, dr = self.h.get_hop()
            w = [t for t in m.terms() if t[0] < st[1] <= t[1]]
            ref.check_terms(ctx, (np.asarray(hi), np.asarray(hj) + st[1], hv, dr), ref.unzip(w),
                            f"{what}: inter-hopping")
            new = tb.Sample(self.sc[0], self.sc[1], self.h)
            ref.check_sample(ctx, new, m, what=f"{what}: new sample", ks=((0.2, 0.1, 0),))
            for k, f in (("super cell", lambda: self.sc[0].add_vacancy((0, 0, 0, 0))),
                         ("super cell", lambda: self.sc[1].add_hopping((0, 0), 0, 2, 1.0)),
                         ("inter-hopping", lambda: self.h.add_hopping((0, 0), 0, 0, 1.0)),
                         ("inter-hopping", lambda: self.h.remove_hopping((0, 0), 0, 3))):
                ctx.raises(f, f"{what}: edit of {k} of a sample")
            ref.check_sample(ctx, tb.Sample(self.sc[0], self.sc[1], self.h), m,
                             what=f"{what}: after refused edits", ks=())
        elif any(self.sc):
            sc = tb.SuperCell(self.c, (3, 1, 1), pbc=(True, False, False))
            ref.check_sc(ctx, sc, ref.SC(self.r, (3, 1, 1), (1, 0, 0)), what=f"{what}: new super cell")
            ctx.raises(lambda: self.c.set_orbital(0, energy=77.0), f"{what}: edit of a cell of a super cell")
            ref.check_cell(ctx, self.c, self.r, deep=False, what=f"{what}: cell")


OPS = ["sc1", "sc2", "inter", "sample", "ul_c", "ul_s", "ul_h", "m_eng", "m_pos", "m_hop", "m_new",
       "m_lat", "m_vac", "m_shop", "m_mod", "m_int", "rc", "rs", "rsid", "rh", "rsmp", "rset", "upd", "upd_s", "upd_h"]
CORE = ["ul_c", "ul_s", "m_eng", "m_hop", "m_vac", "m_mod", "rc", "rs", "rsmp", "upd"]
BOUNDS = {"quick": f"all histories of at most 3 of {len(OPS)} operations from 4 worlds, of at most "
                   f"4 of {len(CORE)} from 3 worlds; one cell with up to 8 super cells, 7 connections and "
                   f"6 samples, every part edited and updated in turn",
          "thorough": f"at most 4 of {len(OPS)} and at most 6 of {len(CORE)} operations; up to 9 super cells and 7 samples",
          "assumptions": ["the lock state after unlocking and then reading a derived object is left open, unless the object was brought up to date with a change"]}


def cases(tier):
    deep, core = (3, 4) if tier == "quick" else (4, 6)
    for s in range(4):
        for a in OPS:
            yield [s, "all", deep, [a]]
    for n in ((1, 2, 5, 8) if tier == "quick" else range(1, 10)):
        for m in ((1, 2, 6) if tier == "quick" else range(1, 8)):
            yield ["fan", n, m]
    for s in range(1, 4):
        for a in itertools.product(CORE, repeat=2):
            yield [s, "core", core, list(a)]


def play(ctx, start, seq):
    w = World(start)
    w.ctx = ctx
    for o in seq:
        if getattr(w, o)() is False:
            return None
    return w


def fan(ctx, n, m):
    """One cell, n super cells, n - 1 connections, m samples: every part edited in turn."""
    r = World(0).r
    c = ref.build_cell(tb, r)
    ss = [ref.SC(r, (3 + i % 2, 1, 1), (1, 0, 0)) for i in range(n)]
    sc = [ref.build_sc(tb, c, s) for s in ss]
    ts = [{((0, 0, 0), 0, 1): 0.5j + i} for i in range(n - 1)]
    hs = []
    for i, t in enumerate(ts):
        hs.append(tb.SCInterHopping(sc[i], sc[i + 1]))
        for k, e in t.items():
            hs[-1].add_hopping(*k, e)
    smp = [tb.Sample(*sc, *hs) for _ in range(m)]
    for x in smp:
        x.init_orb_eng()
        x.init_orb_pos()
        x.init_hop()
    parts = [("c", 0)] + [("s", i) for i in range(n)] + [("h", i) for i in range(n - 1)] + [("c", 1)]
    for step, (k, i) in enumerate(parts):
        what = f"{n} super cells, {m} samples, step {step}: {k}{i}"
        obj = {"c": c, "s": sc[min(i, n - 1)], "h": hs[min(i, n - 2)] if hs else None}[k]

        def edit():
            if k == "c":
                c.set_orbital(0, energy=1.5 + step)
            elif k == "s":
                obj.set_vacancies([(1, 0, 0, 0)])
            else:
                obj.add_hopping((0, 0), 0, 0, 2.5 + step)
        ctx.raises(edit, f"{what}: edit of a locked part")
        obj.unlock()
        edit()
        if k == "c":
            r.set_orbital(0, energy=1.5 + step)
        elif k == "s":
            ss[i].vac = {(1, 0, 0, 0)}
        else:
            ts[i][((0, 0, 0), 0, 0)] = 2.5 + step
        obj.update()
        ctx.step()
        ctx.state(n, m, step)
        mod = ref.Smp(ss, [(j, j + 1, t) for j, t in enumerate(ts)])
        for j, x in enumerate(smp):
            ctx.close(x.orb_eng, mod.eng(), f"{what}: orb_eng of sample {j}")
            ref.check_sample(ctx, x, mod, what=f"{what}: sample {j}", ks=())
        for s, x in zip(ss, sc):
            ref.check_sc(ctx, x, s, what=f"{what}: super cell")
        for f in ([lambda: c.set_orbital(0, energy=9.0)] + [lambda x=x: x.add_vacancy((0, 0, 0, 1)) for x in sc]
                  + [lambda x=x: x.add_hopping((0, 0), 1, 1, 9.0) for x in hs]):
            ctx.raises(f, f"{what}: edit after the update")


def run(case, ctx):
    if case[0] == "fan":
        return fan(ctx, *case[1:])
    start, mode, deep, seq = case
    ops = OPS if mode == "all" else CORE

    def rec(seq):
        ctx.case = [start, mode, len(seq), list(seq)]
        w = play(ctx, start, seq)
        if w is None:
            return
        ctx.step(len(seq))
        ctx.state(start, w.r.key(), w.s[0].key(), w.s[1].key(), tuple(w.t.items()),
                  tuple(w.lock.values()), w.smp is None, w.fresh)
        w.check(ctx, f"after {start}: {' '.join(seq)}")
        ctx.trace(f"{start}: {' '.join(seq)}")
        if len(seq) < deep:
            for o in ops:
                rec(seq + [o])
    rec(seq)
