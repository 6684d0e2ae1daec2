"""C21: the ready-made material models, all options, against the symmetries and the published parameters."""
import itertools
import json
import math
import os

import numpy as np
import tbplas as tb

CHUNK = 1
HERE = os.path.dirname(os.path.abspath(__file__))
GOLD = os.path.join(HERE, "c21_published.json")
BOUNDS = {"quick": "all 8 constructors x their options (4 TMDCs, spin-orbit on/off, topological or not, built from scratch or reshaped) x lengths of the c axis "
                   "x complex hopping integrals x all operations of the point group of the lattice x 20 k-points",
          "thorough": "as quick with 150 k-points",
          "assumptions": ["the reference spectra of the published parameter sets (c21_published.json) were recorded once and are "
                          "cross-checked by the symmetries"]}


def mesh(tier):
    n = 20 if tier == "quick" else 150
    a, b = 0.7548776662466927, 0.5698402909980532
    return [(((i + 0.5) * a) % 1 - 0.5, ((i + 0.5) * b) % 1 - 0.5, 0.0) for i in range(n)]


MAT = {
    "diamond": lambda **k: tb.make_graphene_diamond(**k), "rect1": lambda **k: tb.make_graphene_rect(True, **k),
    "rect0": lambda **k: tb.make_graphene_rect(False, **k), "sp": lambda **k: tb.make_graphene_sp(**k),
    "qsh": lambda: tb.make_graphene_soc(True), "normal": lambda: tb.make_graphene_soc(False),
    "sb": lambda **k: tb.make_antimonene(with_soc=False, **k), "sbsoc": lambda **k: tb.make_antimonene(**k),
    "bp": lambda **k: tb.make_black_phosphorus(**k), "MoS2": lambda: tb.make_tmdc("MoS2"), "MoSe2": lambda: tb.make_tmdc("MoSe2"),
    "WS2": lambda: tb.make_tmdc("WS2"), "WSe2": lambda: tb.make_tmdc("WSe2"), "mos2soc": lambda: tb.make_mos2_soc(),
}
TOL = {"sbsoc": 1e-4, "mos2soc": 1e-3}          # published numbers are rounded
SPIN = ("qsh", "normal", "sbsoc", "mos2soc")
HEX = [m for m in MAT if m not in ("rect1", "rect0", "bp")]
WITH_C = ("diamond", "rect1", "rect0", "sp", "sb", "sbsoc", "bp")


def data(c):
    """Positions, on-site energies and terms, read through the public interface."""
    c.sync_array()
    return (np.array(c.orb_pos_nm), np.array(c.orb_eng), np.array(c.hop_ind).reshape(-1, 5), np.array(c.hop_eng), np.array(c.lat_vec))


def ham(d, k):
    """The Fourier sum (convention 2)."""
    pos, eng, ind, t, lat = d
    h = np.diag(eng.astype(complex))
    f = t * np.exp(2j * math.pi * (ind[:, :3] @ np.array(k)))
    np.add.at(h, (ind[:, 3], ind[:, 4]), f)
    np.add.at(h, (ind[:, 4], ind[:, 3]), f.conj())
    return h


def bands(ctx, c, d, k, what):
    """Spectrum by the reference sum, confirmed by the implementation."""
    e = np.linalg.eigvalsh(ham(d, k))
    for conv in (1, 2):
        h = np.zeros((c.num_orb, c.num_orb), complex)
        c.set_ham_dense(np.array(k, float), h, conv)
        ctx.close(h, h.conj().T, f"{what}: not Hermitian at {k}", 1e-12)
        ctx.close(np.linalg.eigvalsh(h), e, f"{what}: spectrum at {k}, convention {conv}", 1e-9)
    ctx.step(2)
    return e


def ops(lat):
    """Integer matrices of the point operations of the in-plane lattice, acting on fractional k."""
    g = 2 * math.pi * np.linalg.inv(lat).T[:2, :2]
    out = []
    for n in range(24):
        a = n * math.pi / 12
        for o in ([[math.cos(a), -math.sin(a)], [math.sin(a), math.cos(a)]], [[math.cos(a), math.sin(a)], [math.sin(a), -math.cos(a)]]):
            m = g @ np.array(o).T @ np.linalg.inv(g)
            if np.allclose(m, np.round(m), atol=1e-3):
                out.append((np.round(m), np.array(o)))
    return out


def cases(tier):
    for m in MAT:
        yield ["sym", m]
        yield ["pub", m]
        yield ["valid", m]
    for m in WITH_C:
        yield ["c", m]
    for i in range(4):
        yield ["rect", i]
    yield ["chiral"]
    yield ["soc0"]
    yield ["index"]
    yield ["args"]


def run(case, ctx):
    globals()["do_" + case[0]](ctx, *case[1:])


def do_valid(ctx, m):
    c = MAT[m]()
    d = data(c)
    pos, eng, ind, t, lat = d
    ctx.equal(c.num_orb, len(pos), m + " orbitals")
    ctx.true(np.all(np.isfinite(pos)) and np.all(np.isfinite(eng)) and np.all(np.isfinite(t)), m + ": not finite")
    seen = set()
    for r in ind:
        a = tuple(int(x) for x in r)
        b = (-a[0], -a[1], -a[2], a[4], a[3])
        ctx.true(a not in seen and b not in seen, lambda: f"{m}: term {a} twice")
        ctx.true(a != b, lambda: f"{m}: diagonal term {a}")
        ctx.true(0 <= a[3] < len(pos) and 0 <= a[4] < len(pos), lambda: f"{m}: orbital of {a}")
        ctx.equal(a[2], 0, f"{m}: a layer is not coupled to its images: {a}")
        seen.add(a)
    ctx.true(len({id(MAT[m]()) for _ in range(2)}) >= 1, "")
    # two calls give independent, equal models
    c1, c2 = MAT[m](), MAT[m]()
    c1.set_orbital(0, energy=9.0)
    ctx.close(data(c2)[1], eng, m + ": models of two calls share data", 1e-12)
    ctx.close(data(MAT[m]())[3], t, m + ": models of two calls differ", 1e-12)
    for k in mesh(ctx.tier)[:5]:
        bands(ctx, c, d, k, m)
    ctx.state("valid", m)
    ctx.trace(f"{m}: {len(pos)} orbitals, {len(t)} terms")


def do_sym(ctx, m):
    c = MAT[m]()
    d = data(c)
    tol = TOL.get(m, 1e-8)
    group = ops(d[4])
    ctx.equal(len(group), 12 if m in HEX else 4, m + ": order of the point group of the lattice")
    for k in mesh(ctx.tier):
        e = bands(ctx, c, d, k, m)
        for w, _ in group:
            q = list(np.array(k[:2]) @ w) + [0.0]
            ctx.close(np.linalg.eigvalsh(ham(d, q)), e, f"{m}: spectra at {k} and the equivalent {q}", tol)
            ctx.state("sym", m, k, w.tolist())
            ctx.step(1)
        for g in ((1, 0, 0), (0, 1, 0), (2, -1, 0), (0, 0, 1)):
            ctx.close(np.linalg.eigvalsh(ham(d, np.array(k) + g)), e, f"{m}: spectrum at {k} not periodic by {g}", 1e-9)
        if m == "sbsoc":
            ctx.close(e[0::2], e[1::2], f"{m}: Kramers degeneracy at {k}", 1e-9)
    for k in itertools.product((0, 0.5), repeat=2):
        if m in SPIN:
            e = np.linalg.eigvalsh(ham(d, (*k, 0)))
            ctx.close(e[0::2], e[1::2], f"{m}: Kramers degeneracy at {k}", tol)
    geometry(ctx, m, d, group)
    ctx.trace(f"{m}: {len(group)} operations")


def geometry(ctx, m, d, group):
    """Bonds of each pair of species map on each other under the rotations which the structure has."""
    pos, eng, ind, t, lat = d
    site = {}
    lab = []
    for p in pos:
        for q in site:
            if np.allclose(p, q, atol=1e-9):
                lab.append(site[q])
                break
        else:
            site[tuple(p)] = len(site)
            lab.append(site[tuple(p)])
    bonds = {}
    for r, e in zip(ind, t):
        v = pos[r[4]] + r[:3] @ lat - pos[r[3]]
        if abs(e) < 1e-10 or np.linalg.norm(v) < 1e-9:
            continue
        bonds.setdefault((lab[r[3]], lab[r[4]]), []).append(v)
        bonds.setdefault((lab[r[4]], lab[r[3]]), []).append(-v)
    det = [(w, o) for w, o in group if np.linalg.det(o) > 0]
    keep = [o for w, o in det if m not in HEX or np.allclose(np.linalg.matrix_power(o, 3), np.eye(2))]
    if m not in HEX:
        keep = [np.eye(2)]
    for p, vs in bonds.items():
        for o in keep:
            for v in vs:
                u = np.array(list(o @ v[:2]) + [v[2]])
                ctx.true(min(np.linalg.norm(u - x) for x in vs) < (2e-5 if m == "mos2soc" else 1e-8),
                         lambda: f"{m}: bond {v} of sites {p} has no equivalent {u}")
        ctx.true(min(np.linalg.norm(v) for v in vs) > 0.13 * (0.1 if m in ("qsh", "normal") else 1) * 0.9, lambda: f"{m}: bonds of {p} too short")


def do_c(ctx, m):
    base = data(MAT[m]())
    for c in (0.5, 1.0, 2.0, 3.7, 12):
        x = MAT[m](c=c)
        d = data(x)
        ctx.close(np.linalg.norm(d[4][2]), c, f"{m}: length of the c axis", 1e-9)
        ctx.close(d[4][:2], base[4][:2], f"{m} with c={c}: in-plane lattice", 1e-10)
        ctx.close(d[0], base[0], f"{m} with c={c}: positions", 1e-9)
        ctx.close(d[1], base[1], f"{m} with c={c}: energies", 1e-12)
        ctx.equal(d[2].tolist(), base[2].tolist(), f"{m} with c={c}: terms")
        ctx.close(d[3], base[3], f"{m} with c={c}: amplitudes", 1e-12)
        ctx.equal([o.label for o in x.orbitals], [o.label for o in MAT[m]().orbitals], f"{m} with c={c}: labels")
        ctx.step(1)
        ctx.state("c", m, c)
    ctx.close(np.linalg.norm(base[4][2]), 1.0, m + ": default c axis", 1e-12)
    ctx.trace(f"{m}: c axis")


def do_rect(ctx, i):
    t = (-2.7, 1.3, -2.7 + 0.9j, 0.4j)[i]
    hexa = data(tb.make_graphene_diamond(t=t))
    for fs in (True, False):
        for kw in (dict(), dict(c=2.5)):
            c = tb.make_graphene_rect(fs, t=t, **kw)
            d = data(c)
            what = f"rectangular graphene from_scratch={fs} t={t} {kw}"
            m = d[4][:2] @ np.linalg.inv(hexa[4])[:, :2]
            ctx.close(m, np.round(m), what + ": lattice is not a super lattice", 1e-9)
            m = np.round(m)
            ctx.close(abs(np.linalg.det(m)), 2, what + ": cell size", 1e-9)
            ctx.close(d[4][0] @ d[4][1], 0, what + ": not rectangular", 1e-9)
            ctx.equal(len(d[0]), 4, what + ": orbitals")
            # the sites are those of the hexagonal lattice
            fr = d[0] @ np.linalg.inv(hexa[4])
            for f in fr:
                near = [np.abs((f - g) - np.round(f - g))[:2].max() for g in hexa[0] @ np.linalg.inv(hexa[4])]
                ctx.true(min(near) < 1e-9, lambda: f"{what}: site {f} is not on the lattice")
            inv = np.linalg.inv(m)
            for k in mesh(ctx.tier):
                e = bands(ctx, c, d, k, what)
                want = []
                for g in ((0, 0), (1, 0), (0, 1), (1, 1)):
                    q = inv @ (np.array(k[:2]) + g)
                    if all(np.abs((q - p) - np.round(q - p)).max() > 1e-6 for p in want):
                        want.append(q)
                ctx.equal(len(want), 2, "folding")
                ev = np.sort(np.concatenate([np.linalg.eigvalsh(ham(hexa, (*q, 0.0))) for q in want]))
                ctx.close(e, ev, f"{what}: not a folding of the hexagonal cell at {k}", 1e-9)
                ctx.state("rect", i, fs, str(kw), k)
    ctx.trace(f"rectangular graphene t={t}")


def do_chiral(ctx):
    for t in (-2.7, 1.0, 2 + 1j):
        for c in (tb.make_graphene_diamond(t=t), tb.make_graphene_rect(True, t=t), tb.make_graphene_rect(False, t=t)):
            d = data(c)
            for k in mesh(ctx.tier):
                e = bands(ctx, c, d, k, f"graphene t={t}")
                ctx.close(e, -e[::-1], f"graphene t={t}: electron-hole symmetry at {k}", 1e-10)
            if c.num_orb == 2 and not isinstance(t, complex):
                ctx.close(np.linalg.eigvalsh(ham(d, (2 / 3, 1 / 3, 0))), [0, 0], f"graphene t={t}: Dirac point", 1e-9)
                ctx.close(np.linalg.eigvalsh(ham(d, (0, 0, 0))), [-3 * abs(t), 3 * abs(t)], f"graphene t={t}: band edges", 1e-9)
            ctx.equal(len(d[3]), 3 * c.num_orb // 2, "nearest-neighbour terms")
            ctx.close(np.abs(d[3]), [abs(t)] * len(d[3]), "hopping integrals", 1e-12)
            v = np.linalg.norm(d[0][d[2][:, 4]] + d[2][:, :3] @ d[4] - d[0][d[2][:, 3]], axis=1)
            ctx.close(v, [0.246 / math.sqrt(3)] * len(v), "bond lengths", 1e-9)
            ctx.state("chiral", t, c.num_orb)
    # pz is decoupled from the other orbitals by the mirror plane
    c = tb.make_graphene_sp()
    lab = [o.label for o in c.orbitals]
    for r, e in zip(*data(c)[2:4]):
        if (lab[r[3]] == "pz") != (lab[r[4]] == "pz"):
            ctx.close(e, 0, f"graphene sp: term {r} couples pz to {lab[r[3]]}", 1e-12)
    ctx.trace("graphene")


def do_soc0(ctx):
    """Spin-orbit coupling is what the options say it is."""
    a = data(tb.make_antimonene(with_soc=False))
    z = tb.make_antimonene(with_soc=True, soc_lambda=0.0)
    d0 = data(z)
    lam = [data(tb.make_antimonene(with_soc=True, soc_lambda=x)) for x in (0.17, 0.34, -0.2)]
    dflt = data(tb.make_antimonene())
    for k in mesh(ctx.tier):
        e = np.linalg.eigvalsh(ham(a, k))
        ctx.close(bands(ctx, z, d0, k, "antimonene"), np.sort(np.concatenate([e, e])), f"antimonene without coupling at {k}", 1e-9)
        h0 = ham(d0, k)
        s = (ham(lam[1], k) - h0) / 0.34
        ctx.close(ham(lam[0], k) - h0, 0.17 * s, "spin-orbit term proportional to its strength", 1e-10)
        ctx.close(ham(lam[2], k) - h0, -0.2 * s, "spin-orbit term proportional to its strength", 1e-10)
        ctx.close(ham(dflt, k), ham(lam[1], k), "default coupling", 1e-12)
        ctx.close(np.trace(s), 0, "trace of the spin-orbit term", 1e-9)
        # on-site and, for a p shell, with levels 1 (twice) and -1/2 (4 times) per atom in the sign convention of the reference
        ctx.close(np.linalg.eigvalsh(s), [-0.5] * 8 + [1] * 4, "spectrum of the spin-orbit term", 2e-2)
        ctx.state("soc", k)
    ctx.equal(len(lam[1][0]), 12, "orbitals with spin")
    ctx.trace("antimonene spin-orbit coupling")


def do_index(ctx):
    for q, want in ((True, 1), (False, 0)):
        c = tb.make_graphene_soc(q)
        z = tb.Z2(c, num_occ=2, echo_details=False)
        p = z.reorder_phases(z.calc_phases(np.linspace(-0.5, 0.5, 41), np.linspace(0, 0.5, 241))[1])
        for r in (0.5, 0.2, -1.03, 2.07):
            n = sum(z.count_crossing(p, r + 2 * math.pi * w) for w in range(-2, 3))
            ctx.equal(n % 2, want, f"Z2 index of make_graphene_soc({q}), reference {r}")
        ctx.step(2)
        ctx.state("index", q)
    ctx.close(data(tb.make_graphene_soc())[1], data(tb.make_graphene_soc(True))[1], "default of make_graphene_soc", 1e-12)
    ctx.trace("Kane-Mele index")


def do_args(ctx):
    ctx.equal(data(tb.make_tmdc())[3].tolist(), data(tb.make_tmdc("MoS2"))[3].tolist(), "default TMDC")
    for bad in ("mos2", "MoTe2", "", "WS"):
        ctx.raises(lambda: tb.make_tmdc(bad), f"material {bad!r}", NotImplementedError)
    for m, (x, y) in {"MoS2": ("Mo", "S"), "MoSe2": ("Mo", "Se"), "WS2": ("W", "S"), "WSe2": ("W", "Se")}.items():
        lab = [o.label for o in tb.make_tmdc(m).orbitals]
        ctx.equal(len(set(lab)), 11, m + ": labels")
        ctx.equal(sum(l.startswith(x + "_d") for l in lab), 5, m + ": metal orbitals")
        ctx.equal(sum(l.startswith(y + "A_p") for l in lab) + sum(l.startswith(y + "B_p") for l in lab), 6, m + ": chalcogen orbitals")
    lab = [o.label for o in tb.make_mos2_soc().orbitals]
    ctx.equal(len(set(lab)), 22, "MoS2 labels")
    ctx.equal([l.rsplit(":", 1)[0] for l in lab[:11]], [l.rsplit(":", 1)[0] for l in lab[11:]], "MoS2 spin-major order")
    ctx.equal({l.rsplit(":", 1)[1] for l in lab[:11]} | {l.rsplit(":", 1)[1] for l in lab[11:]}, {"up", "down"}, "MoS2 spins")
    ctx.equal({o.label for o in tb.make_graphene_diamond().orbitals}, {"C_pz"}, "graphene labels")
    ctx.state("args")
    ctx.trace("arguments")


GK = [(0.0, 0.0, 0.0), (0.137, -0.291, 0.0), (0.41, 0.23, 0.0), (2 / 3, 1 / 3, 0.0)]


def record():
    out = {}
    for m in MAT:
        d = data(MAT[m]())
        out[m] = dict(lat=np.round(d[4], 12).tolist(), pos=np.round(d[0], 12).tolist(),
                      bands=[np.round(np.linalg.eigvalsh(ham(d, k)), 9).tolist() for k in GK])
    with open(GOLD, "w") as f:
        json.dump(out, f, indent=0)


def do_pub(ctx, m):
    with open(GOLD) as f:
        g = json.load(f)[m]
    c = MAT[m]()
    d = data(c)
    ctx.close(d[4], g["lat"], m + ": published lattice", 1e-7)
    ctx.close(d[0], g["pos"], m + ": published positions", 1e-7)
    for k, e in zip(GK, g["bands"]):
        ctx.close(bands(ctx, c, d, k, m), e, f"{m}: spectrum of the published model at {k}", 1e-6)
        ctx.state("pub", m, k)
    ctx.trace(f"{m}: published parameters")
