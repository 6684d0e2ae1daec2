"""C08: all bounded histories of initialising, resetting, rescaling, saving and loading samples."""
import itertools
import math
import os
import shutil
import sys

import numpy as np
import tbplas as tb

from lib import ref
from checks import c07

KPT = (0.31, -0.17, 0.05)
FAC = math.pi / 4135.666734


def model(large=False):
    return c07.make([4, 5, 2], [[0, 1, 3], [1, 2, 2]]) if large else c07.make([0, 1], [[0, 1, 1]])


class World:
    def __init__(self, ctx, large=False, keep=False):
        self.ctx = ctx
        self.large = large
        scs, self.m = model(large)
        self.args = list(scs)
        for b, k, t in self.m.inter:
            h = tb.SCInterHopping(scs[b], scs[k])
            for (rn, i, j), e in t.items():
                h.add_hopping(rn, i, j, e)
            self.args.append(h)
        self.smp = tb.Sample(*self.args)
        self.dir = os.path.join(ctx.workdir(), "arr")
        if not keep:
            shutil.rmtree(self.dir, ignore_errors=True)
        self.init = set()
        self.rs = 1.0
        self.mods = ()
        self.saved = None
        self.de = self.dp = 0.0        # edits of the caller: energy of orbital 0, all positions
        self.shift = None

    # ------- the operations; `pos` is deliberately independent of the others
    def eng(self):
        self.smp.init_orb_eng()
        self.init.add("e")

    def pos(self):
        self.smp.init_orb_pos()
        self.init.add("p")

    def _h(self):
        self.init.add("h")

    def hop(self):
        self.smp.init_hop()
        self._h()

    def feng(self):
        self.smp.init_orb_eng(force_init=True)
        self.init.add("e")
        self.de = 0.0

    def fpos(self):
        self.smp.init_orb_pos(force_init=True)
        self.dp = 0.0

    def fhop(self):
        self.smp.init_hop(force_init=True)
        self._h()
        self.rs, self.mods = 1.0, ()

    def reset(self):
        self.smp.reset_array()
        self.de = self.dp = 0.0
        if "h" in self.init:
            self.rs, self.mods = 1.0, ()

    def r2(self):
        self.smp.rescale_ham(2.0)
        self.rs = 2.0
        self._h()

    def r5(self):
        self.smp.rescale_ham(5.5)
        self.rs = 5.5
        self._h()

    def r51(self):
        self.smp.rescale_ham(5.5001)
        self.rs = 5.5001
        self._h()

    def eeng(self):
        """The caller changes an energy, as for disorder."""
        self.smp.init_orb_eng()
        self.smp.orb_eng[0] += 0.7 / self.rs
        self.de += 0.7

    def epos(self):
        self.smp.init_orb_pos()
        self.smp.orb_pos[:] += 0.1
        self.dp += 0.1

    def ehop(self):
        self.smp.init_hop()
        self.smp.hop_v *= 1.25
        self._h()
        self.mods += ("h",)

    def auto(self):
        if self.de or "h" in self.mods:
            return False
        self.smp.rescale_ham()
        self._h()
        want = auto_value(self.ctx)
        self.ctx.close(self.smp.rescale, want, "automatic scaling factor depends on the history", 1e-9)
        self.rs = want

    def save(self):
        self.smp.init_orb_eng()
        self.smp.init_orb_pos()
        self.smp.init_hop()
        self._h()
        self.smp.save_array(self.dir)
        self.saved = (self.rs, self.mods)
        self.shift = (self.de, self.dp)

    def bsave(self):
        """Save whatever happens to be initialised."""
        self.smp.save_array(self.dir)
        self._h()
        self.saved = (self.rs, self.mods)
        self.shift = (self.de, self.dp)

    def foreign(self):
        """Another sample with as many orbitals and terms has been saved in the same place."""
        scs, m = c07.make([4, 5, 2], [[0, 1, 3], [1, 2, 2]]) if self.large else c07.make([1, 0], [[1, 0, 1]])
        s = ref.build_sample(tb, scs, m)
        s.set_k_point(np.array(KPT))
        s.rescale_ham(3.0)
        s.init_orb_pos()
        if self.large:
            s.hop_v[:] = s.hop_v[::-1]
            s.hop_i[:], s.hop_j[:] = s.hop_j.copy(), s.hop_i.copy()
            s.orb_eng[:] = s.orb_eng[::-1] + 1
            s.orb_pos[:] += 1
            s.dr[:] = -s.dr
        s.save_array(self.dir)

    def load(self):
        self.smp.load_array(self.dir)
        if self.saved is None:
            return
        self._h()
        self.rs, self.mods = self.saved
        self.de, self.dp = self.shift

    def k(self):
        self.smp.set_k_point(np.array(KPT))
        self._h()
        self.mods += ("k",)

    def mag(self):
        self.smp.set_magnetic_field(200.0, gauge=1)
        self._h()
        self.mods += (("m", self.dp) if self.dp else "m",)

    def csr(self):
        self.smp.build_ham_csr()
        self._h()

    def dxy(self):
        self.smp.build_ham_dxy()
        self._h()

    def dense(self):
        if "h" not in self.init or self.smp.orb_eng is None:
            return False
        self.smp.set_ham_dense(np.array(KPT), np.zeros((self.m.n,) * 2, complex))

    def num(self):
        self.smp.num_hop, self.smp.num_orb, self.smp.energy_range
        self._h()

    def other(self):
        """A second sample of the same super cells takes over."""
        self.smp = tb.Sample(*self.args)
        self.init = set()
        self.rs, self.mods = 1.0, ()
        self.de = self.dp = 0.0

    # -------
    def phase(self):
        kc = np.array(KPT) @ (2 * math.pi * np.linalg.inv(self.m.scs[0].lat).T)
        p = self.m.pos()

        def f(i, j, d):
            x = 1.0
            for t in self.mods:
                if t == "k":
                    x = x * np.exp(1j * float(kc @ d))
                elif t == "h":
                    x = x * 1.25
                else:
                    dp = 0.0 if t == "m" else t[1]
                    x = x * np.exp(-1j * FAC * 200.0 * d[1] * (p[i][0] + p[j][0] + 2 * dp))
            return x
        return f

    def check(self, what):
        self.ctx.close(self.smp.rescale, self.rs, f"{what}: scaling factor", 1e-9)
        self.ctx.close(self.smp.energy_range, 2 * self.rs, f"{what}: energy range", 1e-9)
        m = self.m
        if self.de or self.dp:
            m = ref.Smp(m.scs, m.inter)
            eng, pos = self.m.eng(), self.m.pos() + self.dp
            eng[0] += self.de
            m.eng, m.pos = lambda: eng.copy(), lambda: pos.copy()
        ref.check_sample(self.ctx, self.smp, m, what=what, rescale=self.rs, ks=((0.2, 0.1, 0.3),),
                         phase=self.phase() if self.mods else None)


_auto = []


def auto_value(ctx):
    if not _auto:
        scs, m = model()
        s = ref.build_sample(tb, scs, m)
        s.rescale_ham()
        _auto.append(s.rescale)
    return _auto[0]


OPS = ["eng", "pos", "hop", "feng", "fpos", "fhop", "reset", "r2", "r5", "auto", "save", "bsave", "load", "k", "mag",
       "csr", "dxy", "dense", "num", "other", "eeng", "epos", "ehop", "r51"]
CORE = ["eng", "hop", "feng", "fhop", "reset", "r2", "auto", "bsave", "load", "k"]
BOUNDS = {"quick": f"all histories of at most 3 of {len(OPS)} and at most 5 of {len(CORE)} operations; every subset "
                   "of the 7 saved files missing, loaded into 4 different samples; every crash point between file operations of saving over "
                   "older data, and a torn last file, in 5 pairs of states; 10 histories of a sample with 130 orbitals",
          "thorough": f"all histories of at most 4 of {len(OPS)} and at most 6 of {len(CORE)} operations",
          "assumptions": ["the file system does not lose what was written"]}
SET = ("orb_eng", "hop_i", "hop_j", "hop_v", "dr")
FILES = ["orb_eng", "orb_pos", "hop_i", "hop_j", "hop_v", "dr", "rescale"]


STATES = [([], ["r5", "mag"]), (["r2", "k"], ["r5", "mag"]), (["mag"], ["r2"]), (["r5"], ["r5", "k"]), (["r2", "k"], ["hop"])]


def crash(ctx, pre, ops, torn):
    """The process dies at each file operation of saving over older data (torn: the last file is cut)."""
    k = 0
    while True:
        w = World(ctx)
        if pre:
            for o in pre:
                getattr(w, o)()
            w.save()
        a = w.saved
        w.other()
        for o in ops:
            getattr(w, o)()
        w.smp.init_orb_eng()
        w.smp.init_orb_pos()
        w.smp.init_hop()
        b = (w.rs, w.mods)
        note = w.dir + "_last"
        pid = os.fork()
        if pid == 0:
            try:
                done = die_at(k, w.dir, note, torn is not None)
                w.smp.save_array(w.dir)
                os._exit(7 if torn is not None and done[0] > k else 0)
            except BaseException:
                os._exit(3)
        rc = os.waitstatus_to_exitcode(os.waitpid(pid, 0)[1])
        ctx.true(rc in (0, 7), f"saving failed with status {rc}")
        if rc == 0 and torn is not None:
            break
        if torn is not None:
            with open(note) as f:
                last = f.read()
            if not os.path.isfile(last):
                k += 1
                continue
            with open(last, "r+b") as f:
                f.truncate(int(os.path.getsize(last) * torn))
        what = f"saving {ops} over {pre} interrupted at operation {k}" + ("" if torn is None else f", last file cut to {torn}") if rc else f"saving {ops} over {pre}"
        w.other()
        try:
            w.smp.load_array(w.dir)
        except Exception:          # a damaged file may be refused, which leaves the model as it is
            ctx.true(torn is not None, f"{what}: loading failed")
        w.smp.init_orb_eng()
        w.smp.init_hop()
        # either state or the model itself, but no mixture
        w.rs, w.mods = min([b] if rc == 0 else [c for c in (a, b, (1.0, ())) if c], key=lambda c: far(ctx, w.smp, c))
        w.check(what)
        ctx.step()
        ctx.state("K", tuple(pre), tuple(ops), torn, k)
        ctx.trace(what)
        if rc == 0:
            break
        k += 1


def far(ctx, smp, st):
    w = World(ctx, keep=True)
    for m in st[1]:
        getattr(w, {"k": "k", "m": "mag"}[m])()
    w.smp.rescale_ham(st[0])
    return max([abs(smp.rescale - st[0])] + [float(np.abs(x - y).max()) if x.shape == y.shape else 1e9
                                             for x, y in ((smp.hop_v, w.smp.hop_v), (smp.orb_eng, w.smp.orb_eng))])


def die_at(k, where, note, after):
    """Die at the k-th operation that changes files in a directory; after: let it happen, and die at the next."""
    n = [0]

    def hook(ev, args):
        if ev == "open":
            hit = isinstance(args[0], (str, bytes)) and (any(c in (args[1] or "") for c in "wax+") or (args[2] or 0) & (os.O_WRONLY | os.O_RDWR))
        else:
            hit = ev in ("os.remove", "os.rename", "os.mkdir", "os.truncate", "os.rmdir", "shutil.rmtree", "shutil.move", "shutil.copyfile")
        if not hit or not os.fsdecode(args[0]).startswith(where) or os.fsdecode(args[0]) == note:
            return
        if n[0] >= k + after:
            os._exit(7)
        n[0] += 1
        if after and n[0] == k + 1:
            fd = _open(note, os.O_WRONLY | os.O_CREAT | os.O_TRUNC)
            os.write(fd, os.fsencode(args[0]))
            os.close(fd)
    sys.addaudithook(hook)
    return n


_open = os.open


def cases(tier):
    for i in range(len(STATES)):
        for torn in (None, 0, 0.5, 0.9):
            yield ["K", i, torn]
    deep, core = (3, 5) if tier == "quick" else (4, 6)
    for a in OPS:
        yield ["H", "all", [a], deep]
    for a in itertools.product(CORE, repeat=2):
        yield ["H", "core", list(a), core]
    for mask in range(128):
        yield ["L", mask]
    for seq in (("save", "load"), ("r2", "k", "save", "other", "load"), ("r5", "save", "reset", "load"), ("mag", "r2", "save", "fhop", "load"),
                ("k", "mag", "r5", "feng", "csr", "dxy", "save", "other", "r2", "load"), ("r5", "r2", "reset"), ("k", "r5", "fhop", "r2")):
        yield ["G", list(seq)]
    for seq in (("foreign", "r2", "save", "load"), ("foreign", "k", "bsave", "other", "load"), ("foreign", "foreign", "mag", "r5", "bsave", "fhop", "load")):
        yield ["G", list(seq)]


def run(case, ctx):
    if case[0] == "K":
        crash(ctx, *STATES[case[1]], case[2])
        return
    if case[0] == "G":
        w = World(ctx, True)
        for o in case[1]:
            getattr(w, o)()
            ctx.step()
        ctx.state("G", *case[1])
        w.check(f"large sample after {case[1]}")
        ctx.trace(f"large sample {case[1]}")
        return
    if case[0] == "H":
        _, mode, pre, deep = case
        ops = OPS if mode == "all" else CORE

        def rec(seq):
            w = World(ctx)
            ctx.case = ["H", mode, list(seq), len(seq)]
            for o in seq:
                if getattr(w, o)() is False:
                    return
                ctx.step()
            ctx.state(tuple(sorted(w.init)), w.rs, w.mods, w.saved, w.de, w.dp, w.shift)
            w.check(f"after {' '.join(seq)}")
            ctx.trace(" ".join(seq))
            if len(seq) < deep:
                for o in ops:
                    rec(seq + [o])
        rec(pre)
        return
    mask = case[1]
    w = World(ctx)
    w.r5()
    w.k()
    w.save()
    saved = {f: np.load(os.path.join(w.dir, f + ".npy")) for f in FILES}
    ctx.equal(sorted(os.listdir(w.dir)), sorted(f + ".npy" for f in FILES), "files written")
    for i, f in enumerate(FILES):
        if mask >> i & 1:
            os.remove(os.path.join(w.dir, f + ".npy"))
    keep = w.dir + "_keep"
    shutil.rmtree(keep, ignore_errors=True)
    shutil.copytree(w.dir, keep)
    for prep in ([], ["hop"], ["eng", "pos", "r2"], ["mag", "auto"]):
        v = World(ctx)
        for o in prep:
            getattr(v, o)()
        old = [getattr(v.smp, a) for a in SET]
        old = [None if a is None else np.array(a) for a in old]
        old_rs = v.smp.rescale
        v.smp.load_array(keep)
        ctx.step()
        ctx.state("L", mask, tuple(prep))
        got = [getattr(v.smp, a) for a in SET]
        if mask & ~2:
            what = f"incomplete files (mask {mask}) loaded after {prep}"
            for g, o, n in zip(got, old, SET):
                if o is None:
                    ctx.true(g is None, f"{what}: {n} loaded")
                else:
                    ctx.close(g, o, f"{what}: {n} changed", 0)
            ctx.equal(v.smp.rescale, old_rs, f"{what}: scaling factor changed")
        else:
            for g, n in zip(got, SET):
                ctx.close(g, saved[n], f"{n} loaded after {prep}", 0)
            ctx.close(v.smp.rescale, 5.5, "scaling factor loaded")
        if not mask & 2:
            ctx.close(v.smp.orb_pos, saved["orb_pos"], "orb_pos loaded", 0)
        if not mask & ~2:
            v.rs, v.mods = 5.5, ("k",)
        v.check(f"loaded after {prep}, files missing: {mask}")
        ctx.trace(f"missing {[f for i, f in enumerate(FILES) if mask >> i & 1]} after {prep}")
    shutil.rmtree(keep, ignore_errors=True)
