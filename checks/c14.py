"""C14: every parallel calculation on simulated communicators of all sizes of the bound, against the serial run."""
import contextlib
import io
import itertools
import os
import shutil

from lib import fakempi

fakempi.install()
import numpy as np          # noqa: E402
import tbplas as tb         # noqa: E402
from tbplas.parallel import MPIEnv   # noqa: E402
from tbplas import utils    # noqa: E402

from lib import ref         # noqa: E402

fakempi_world = fakempi.World
BOUNDS = {"quick": "1 to 6 processes (8 for the distribution of tasks; random samples 1 to 4) x problem sizes 1 to 5 (all "
                   "distributions up to 12 tasks) x bands, DOS, states, Z2, spin texture, 6 response functions x 2 back ends, "
                   "8 propagation methods, 9 analyses, plots; sizes up to 40 on up to 16 processes; all orders of up to 3 processes between collectives, 2 otherwise",
          "thorough": "1 to 8 processes, problem sizes 1 to 9, all orders of up to 4 processes",
          "assumptions": ["ranks are threads which run one at a time and interact through collectives only; "
                          "collectives act on raw memory like MPI"]}


def model():
    r = ref.Cell([[0.25, 0, 0], [0.1, 0.22, 0], [0, 0, 0.5]], (0.1, 0, 0), 1.0)
    r.add_orbital((0, 0, 0), 0.2)
    r.add_orbital((0.4, 0.3, 0.1), -0.5)
    for h in [((0, 0), 0, 1, -1.0), ((1, 0), 1, 0, 0.7j), ((0, 1), 1, 0, 0.4 + 0.2j), ((1, 0), 0, 0, 0.15), ((0, 1, 1), 1, 1, 0.1j)]:
        r.add_hopping(*h)
    return r


def cell():
    return ref.build_cell(tb, model())


def sample():
    return tb.Sample(tb.SuperCell(cell(), (3, 3, 3), pbc=(True, True, True)))


KPT = np.array([[0.1 * i, 0.23 * i * i % 1, -0.07 * i] for i in range(40)])


def config(n, steps=8):
    c = tb.Config()
    c.generic.update(nr_random_samples=n, nr_time_steps=steps, seed=17, nr_Fermi_fft_steps=256,
                     Fermi_cheb_precision=1e-6, beta=3.0)
    c.LDOS.update(site_indices=[1, 3, 4], recursion_depth=4)
    c.quasi_eigenstates["energies"] = [-0.5, 0.4]
    c.dyn_pol["q_points"] = [[1.0, 0.5, 0.0], [0.0, 0.0, 0.0]]
    c.DC_conductivity["energy_limits"] = (-1.5, 1.5)
    c.dckb.update(n_kernel=6, energies=[-0.3, 0.1], ne_integral=16, direction=2)
    return c


def corr(kind, tnr, ne=0):
    rng = np.arange(1, 20000)

    def z(shape):
        n = int(np.prod(shape))
        return ((np.sin(rng[:n] * 1.7) + 1j * np.cos(rng[:n] * 0.9)) / rng[:n]).reshape(shape)
    return z({"dos": (tnr + 1,), "ac": (4, tnr), "dp": (2, tnr), "dc0": (tnr,), "dc": (2, ne, tnr), "mu": (6, 6)}[kind])


def proj(bands, states):
    """Projectors on the states (independent of their phases)."""
    return np.einsum("kbi,kbj->kbij", states, states.conj())


# ---- the parallel calculations: name -> f(mpi, size of the problem, rank) -> list of arrays
def job(name, mpi, n, rank):
    kw = dict(enable_mpi=mpi, echo_details=False)
    if name == "bands":
        r = tb.DiagSolver(cell(), **kw).calc_bands(KPT[:n], orbital_indices=[0])
        return [r.bands, r.proj, r.k_len]
    if name == "bands_pc":
        return list(cell().calc_bands(KPT[:n], **kw))
    if name == "bands_sample":
        return list(sample().calc_bands(KPT[:n], **kw))
    if name == "dos":
        return list(tb.DiagSolver(cell(), **kw).calc_dos(KPT[:n], e_min=-2, e_max=2, e_step=0.3))
    if name == "dos_sample":
        return list(sample().calc_dos(KPT[:n], **kw))
    if name == "dos_orb":
        return list(cell().calc_dos(KPT[:n], orbital_indices=[1], basis="Lorentzian", e_step=0.2, **kw))
    if name == "states":
        b, s = tb.DiagSolver(cell(), **kw).calc_states(KPT[:n])
        return [b, proj(b, s)]
    if name == "z2":
        z = tb.Z2(cell(), 1, **kw)
        return list(z.calc_phases(np.arange(5) / 5 - 0.5, np.linspace(0, 0.5, n)))
    if name[:4] == "spin":
        s = tb.SpinTexture(cell(), KPT[:n], **kw)
        return [s.eval(x) for x in name[5:]]
    if name[:4] == "lind":
        _, what, dim, back = name.split("_")
        mesh = {1: (1, 1, 1), 2: (2, 1, 1), 3: (3, 1, 1), 4: (2, 2, 1), 5: (5, 1, 1)}.get(n, (n, 1, 1))
        l = tb.Lindhard(cell(), mesh, energy_min=0.1, energy_max=3, energy_step=4, mu=0.1, dimension=int(dim), **kw)
        f = back == "f"
        qs = np.array([(1, 0, 0), (0, 1, 0), (2, 1, 0)][:1 + n % 3], dtype=np.int64)
        if what == "reg":
            w, d = l.calc_dyn_pol_regular(qs, use_fortran=f)
            return [w, d, l.calc_epsilon(l.grid2cart(qs) + 0.1, d)]
        if what == "arb":
            return list(l.calc_dyn_pol_arbitrary(qs * 1.3 + 0.2, use_fortran=f))
        out = []
        for c in ("xx", "xy", "yz"):
            out += list(l.calc_ac_cond(component=c, use_fortran=f))
        return out
    if name[:4] == "tbpm":
        s = sample()
        s.rescale_ham()
        solver = tb.Solver(s, config(n), directory="out", prefix=f"rank{rank}", **kw)
        what = name[5:]
        if what == "twice":
            return [solver.calc_corr_dos(), solver.calc_corr_ldos(), solver.calc_corr_dos()]
        f = {"dos": solver.calc_corr_dos, "ldos": solver.calc_corr_ldos, "ac": solver.calc_corr_ac_cond,
             "dp": solver.calc_corr_dyn_pol, "dc": solver.calc_corr_dc_cond, "mu": solver.calc_hall_mu,
             "qe": lambda: solver.calc_quasi_eigenstates(save_data=True)}[what]
        r = f()
        return list(r) if isinstance(r, tuple) else [r]
    if name[:4] == "ana_":
        s = sample()
        s.rescale_ham()
        tnr = n + 2
        c = config(1, tnr)
        c.generic["correct_spin"] = bool(n % 2)
        a = tb.Analyzer(s, c, dimension=2 + n % 2, **kw)
        what = name[4:]
        e = np.array([0.5 * i * s.energy_range / tnr - s.energy_range / 2. for i in range(tnr * 2)])
        ne = int(np.count_nonzero((e >= -1.5) & (e <= 1.5)))
        if what == "dos":
            return list(a.calc_dos(corr("dos", tnr))) + list(a.calc_ldos(corr("dos", tnr)))
        if what == "ac":
            return list(a.calc_ac_cond(corr("ac", tnr)))
        if what == "dp":
            q, w, d = a.calc_dyn_pol(corr("dp", tnr).real.copy())
            return [q, w, d, a.calc_epsilon(d)]
        if what == "dc":
            return list(a.calc_dc_cond(corr("dc0", tnr), corr("dc", tnr, ne)))
        if what == "diff":
            return list(a.calc_diff_coeff(corr("dc", tnr, ne)))
        return list(a.calc_hall_cond(corr("mu", tnr)))
    raise KeyError(name)


KJOBS = ["bands", "bands_pc", "bands_sample", "dos", "dos_sample", "dos_orb", "states", "z2", "spin_xyz", "spin_z"]
KJOBS += [f"lind_{w}_{d}_{b}" for w in ("reg", "arb", "ac") for d in (2, 3) for b in ("f", "c")]
TJOBS = ["tbpm_" + w for w in ("dos", "ldos", "ac", "dp", "dc", "mu", "qe", "twice")]
AJOBS = ["ana_" + w for w in ("dos", "ac", "dp", "dc", "diff", "hall")]


def orders(p, tier):
    if p <= (3 if tier == "quick" else 4):
        return [list(o) for o in itertools.permutations(range(p))]
    return [list(range(p)), list(range(p))[::-1]]


def cases(tier):
    pm = 6 if tier == "quick" else 8
    nm = 5 if tier == "quick" else 9
    yield ["D"]
    for p in range(1, pm + 1):
        yield ["E", p]
    for j in KJOBS + TJOBS + AJOBS:
        top = nm if j in KJOBS else (4 if j in TJOBS else 3)
        for n in range(1, top + 1):
            for p in range(1, (pm if j not in AJOBS else 4) + 1):
                yield ["J", j, n, p]
    for j in KJOBS:
        for n, p in ((37, 5), (40, 16), (9, 13)):
            yield ["J", j, n, p]
    for j in TJOBS:
        for n, p in ((11, 4), (3, 9)):
            yield ["J", j, n, p]
    for j in AJOBS:
        for n, p in ((21, 3), (33, 7)):
            yield ["J", j, n, p]
    for p in range(1, pm + 1):
        yield ["R", p]
    for p in (1, 2, 3):
        yield ["V", p]


def serial_size(name, n, p):
    """The documented adjustment of the number of random samples."""
    return -(-n // p) * p if name in TJOBS else n


CACHE = {}


def serial(name, n):
    if (name, n) not in CACHE:
        shutil.rmtree("out", ignore_errors=True)
        CACHE[name, n] = job(name, False, n, 0)
    return CACHE[name, n]


def files(root="."):
    return sorted(os.path.relpath(os.path.join(b, f), root) for b, _, fs in os.walk(root) for f in fs)


def run(case, ctx):
    if case[0] == "D":
        distribution(ctx)
    elif case[0] == "E":
        environment(case[1], ctx)
    elif case[0] == "J":
        _, name, n, p = case
        want = serial(name, serial_size(name, n, p))
        for o in orders(p, ctx.tier):
            shutil.rmtree("out", ignore_errors=True)
            before = set(files())
            w = fakempi.World(p, o)
            try:
                res, err = w.run(lambda r: job(name, True, n, r))
            except fakempi.MPIError as e:
                ctx.fail(f"{name} of size {n} on {p} processes, order {o}: {e}")
            for r in range(p):
                if err[r] is not None:
                    ctx.fail(f"{name} of size {n} on {p} processes, order {o}: rank {r} raised {err[r]!r}")
                ctx.equal(len(res[r]), len(want), "number of results")
                for i, (g, x) in enumerate(zip(res[r], want)):
                    ctx.close(g, x, f"{name} of size {n} on {p} processes, order {o}: result {i} on rank {r}", 1e-8)
            for i in range(1, p):
                ctx.true(not w.writes[i], lambda: f"{name} on {p} processes: rank {i} wrote {sorted(w.writes[i])}")
            new = set(files()) - before
            ctx.true(all(os.path.basename(f).startswith("rank0.") for f in new),
                     lambda: f"{name} on {p} processes: files {sorted(new)}")
            ctx.true(not name.startswith("tbpm") or new, lambda: f"{name}: nothing was saved")
            if name in ("tbpm_dos", "tbpm_mu", "tbpm_ldos"):
                f = [x for x in new if x.endswith(".npy")]
                ctx.equal(len(f), 1, "number of saved arrays")
                ctx.close(np.load(f[0]), want[0], f"{name}: saved result", 1e-8)
            ctx.step(len(w.log) * p + p)
            ctx.state(name, n, p, tuple(o), tuple(w.log))
            ctx.trace(f"{name} size {n} processes {p} order {o}: {len(w.log)} collectives")
    elif case[0] == "R":
        refused(case[1], ctx)
    else:
        plots(case[1], ctx)


def distribution(ctx):
    for p, n in itertools.chain(itertools.product(range(1, 9), range(0, 13)),
                                itertools.product((3, 7, 16, 32, 61), (1, 15, 16, 17, 60, 61, 62, 100, 1001))):
        raw = [f"t{i}" for i in range(n)]
        w = fakempi.World(p)

        def f(r):
            e = MPIEnv(enable_mpi=True)
            return (e.dist_list(raw), e.dist_list(raw, "remainder"), list(e.dist_list(raw, algorithm="range")),
                    list(e.dist_range(n)), e.dist_bound(n), e.rank, e.size, e.is_master)
        res, err = w.run(f)
        what = f"{n} tasks on {p} processes"
        for e in err:
            if e is not None:
                ctx.fail(f"{what}: {e!r}")
        for k in (0, 1, 2):
            ctx.equal(sorted(x for r in res for x in r[k]), sorted(raw), what + f" list {k}")
            ls = [len(r[k]) for r in res]
            ctx.true(max(ls) - min(ls) <= 1, f"{what}: unbalanced {ls}")
        ctx.equal([x for r in res for x in r[3]], list(range(n)), what + " range")
        ctx.equal([x for r in res for x in range(r[4][0], r[4][1] + 1)], list(range(n)), what + " bounds")
        ctx.equal([r[5:] for r in res], [(i, p, i == 0) for i in range(p)], what + " ranks")
        ctx.equal(sorted(x for g in utils.split_list(raw, p) for x in g), sorted(raw), what)
        ctx.equal([x for g in utils.split_range(n, p) for x in g], list(range(n)), what)
        ctx.step(8 * p)
        ctx.state("D", n, p)
        ctx.trace(what)


def environment(p, ctx):
    for dt in (float, complex, np.int64):
        for shape in ((4,), (2, 3), (2, 3, 2), (1, 1), (0,)):
            for order in "CF":
                for o in orders(p, ctx.tier):
                    def data(r):
                        a = (np.arange(int(np.prod(shape))) + 10 * (r + 1)).astype(dt)
                        if dt is complex:
                            a = a + 1j * r
                        return np.array(a.reshape(shape), order=order)

                    def f(r):
                        e = MPIEnv(enable_mpi=True)
                        d = data(r)
                        out = [e.reduce(d), e.all_reduce(d)]
                        if dt is not np.int64:
                            out += [e.average(d), e.all_average(d)]
                        same = np.array_equal(d, data(r))
                        e.barrier()
                        e.bcast(d)
                        return out, d, same
                    w = fakempi.World(p, o)
                    try:
                        res, err = w.run(f)
                    except fakempi.MPIError as e:
                        ctx.fail(f"collectives on {p} processes: {e}")
                    tot = sum(data(r) for r in range(p))
                    for r in range(p):
                        if err[r] is not None:
                            ctx.fail(f"rank {r} of {p} raised {err[r]!r}")
                        out, d, same = res[r]
                        what = f"{dt.__name__} {shape} {order} on rank {r} of {p}, order {o}"
                        ctx.true(same, what + ": local data changed")
                        if r == 0:
                            ctx.close(out[0], tot, what + " reduce", 1e-12)
                        ctx.close(out[1], tot, what + " all_reduce", 1e-12)
                        if len(out) > 2:
                            if r == 0:
                                ctx.close(out[2], tot / p, what + " average", 1e-12)
                            ctx.close(out[3], tot / p, what + " all_average", 1e-12)
                        ctx.close(d, data(0), what + " bcast", 1e-12)
                    ctx.step(6 * p)
                    ctx.state("E", p, str(dt), shape, order, tuple(o))
    e = MPIEnv(enable_mpi=False)
    for dt in (float, complex, np.int64):
        d = np.arange(6).astype(dt).reshape(2, 3)
        for fn in (e.reduce, e.all_reduce, e.average, e.all_average):
            ctx.close(fn(d), np.arange(6).reshape(2, 3), f"{fn.__name__} without MPI", 1e-12)
        e.bcast(d)
        e.barrier()
        ctx.close(d, np.arange(6).reshape(2, 3), "data without MPI", 1e-12)
    ctx.equal((e.rank, e.size, e.is_master, e.mpi_enabled), (0, 1, True, False), "environment without MPI")
    for o in orders(p, ctx.tier):
        def talk(r):
            e = MPIEnv(enable_mpi=True)
            e.print("said once")
            e.log("logged once")
        buf = io.StringIO()
        with contextlib.redirect_stdout(buf):
            fakempi.World(p, o).run(talk)
        ctx.equal([l.split(" at ")[0] for l in buf.getvalue().split("\n") if l], ["said once", "logged once"], f"output of {p} processes")
        ctx.step(p)
    ctx.trace(f"collectives on {p} processes")


def refused(p, ctx):
    """Calculations which support one process only: all ranks are told so, or the result is the serial one."""
    for what in ("haydock", "psi"):
        def f(r, mpi=True):
            s = sample()
            s.rescale_ham()
            c = config(1)
            c.LDOS["site_indices"] = [2]
            solver = tb.Solver(s, c, enable_mpi=mpi, echo_details=False, directory="out", prefix=f"rank{r}")
            try:
                if what == "haydock":
                    return [np.array(x) for x in solver.calc_ldos_haydock()]
                return [solver.calc_psi_t(np.arange(1, s.num_orb + 1) * 1j, np.array([0, 2, 8]))]
            except RuntimeError:
                return "refused"
        shutil.rmtree("out", ignore_errors=True)
        want = f(0, False)
        shutil.rmtree("out", ignore_errors=True)
        w = fakempi.World(p)
        try:
            res, err = w.run(f)
        except fakempi.MPIError as e:
            ctx.fail(f"{what} on {p} processes: {e}")
        for r in range(p):
            if err[r] is not None:
                ctx.fail(f"{what} on {p} processes: rank {r} raised {err[r]!r}")
            if p > 1 and isinstance(res[r], str):
                continue
            for g, x in zip(res[r], want):
                ctx.close(g, x, f"{what} on {p} processes, rank {r}", 1e-8)
        for i in range(1, p):
            ctx.true(not w.writes[i], lambda: f"{what}: rank {i} wrote {sorted(w.writes[i])}")
        ctx.step(p)
        ctx.state("R", what, p)
        ctx.trace(f"{what} on {p} processes")


def plots(p, ctx):
    import matplotlib.pyplot as plt

    def f(r):
        v = tb.Visualizer(enable_mpi=True)
        x = np.linspace(0, 1, 5)
        kw = dict(fig_dpi=30)
        v.plot_xy(x, x ** 2, x_label="a", y_label="b", fig_name=f"xy{r}.png", **kw)
        v.plot_bands(x, np.outer(x, [1, 2]), np.array([0, 4]), ["G", "X"], fig_name=f"bands{r}.png", **kw)
        v.plot_dos(x, x, fig_name=f"dos{r}.png", **kw)
        v.plot_phases(x, np.outer(x, [1, 2]), fig_name=f"ph{r}.png", **kw)
        v.plot_vector(x, x, x, x, fig_name=f"vec{r}.png", **kw)
        return 1
    before = set(files())
    w = fakempi.World(p)
    try:
        res, err = w.run(f)
    except fakempi.MPIError as e:
        ctx.fail(f"plots on {p} processes: {e}")
    plt.close("all")
    for r in range(p):
        if err[r] is not None:
            ctx.fail(f"plots: rank {r} raised {err[r]!r}")
    new = sorted(os.path.basename(x) for x in set(files()) - before if x.endswith(".png"))
    for x in new:
        os.remove(x)
    ctx.equal(new, sorted(f"{n}0.png" for n in ("xy", "bands", "dos", "ph", "vec")), f"figures written by {p} processes")
    ctx.step(5 * p)
    ctx.state("V", p)
    ctx.trace(f"plots on {p} processes")
