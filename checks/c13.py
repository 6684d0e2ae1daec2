"""C13: Slater-Koster integrals and spin-orbit terms against the rotation-matrix and tensor definitions."""
import itertools
import math

import numpy as np
import tbplas as tb

P = ["px", "py", "pz"]
D = ["dxy", "dyz", "dzx", "dx2-y2", "dz2"]
ALL = ["s"] + P + D
PAR = ["v_sss", "v_sps", "v_sds", "v_pps", "v_ppp", "v_pds", "v_pdp", "v_dds", "v_ddp", "v_ddd"]
R2 = math.sqrt(0.5)
T = np.zeros((5, 3, 3))
T[0, 0, 1] = T[0, 1, 0] = R2
T[1, 1, 2] = T[1, 2, 1] = R2
T[2, 0, 2] = T[2, 2, 0] = R2
T[3] = np.diag([R2, -R2, 0])
T[4] = np.diag([-1, -1, 2]) / math.sqrt(6)
EPS = np.zeros((3, 3, 3))
for i, j, k in itertools.permutations(range(3)):
    EPS[i, j, k] = np.linalg.det(np.eye(3)[[i, j, k]])
# canonical two-centre blocks for a bond along z: <i,0|H|j,z>
CANON = {}
for n, par in enumerate(PAR):
    m = np.zeros((9, 9))
    a, b, c = par[2], par[3], par[4]
    sel = {"s": {"s": ["s"], "p": ["pz"], "d": ["dz2"]}, "p": {"p": ["px", "py"], "d": ["dzx", "dyz"]},
           "d": {"d": ["dx2-y2", "dxy"]}}[c]
    for x, y in zip(sel[a], sel[b]):
        i, j = ALL.index(x), ALL.index(y)
        m[i, j] = 1
        sign = (-1) ** ("spd".index(a) + "spd".index(b))
        m[j, i] = sign
    CANON[par] = m


def shell_rotation(rot):
    """9x9 matrix of the rotated orbitals: column j holds the rotated orbital j."""
    u = np.zeros((9, 9))
    u[0, 0] = 1
    u[1:4, 1:4] = rot
    for j in range(5):
        t = rot @ T[j] @ rot.T
        for i in range(5):
            u[4 + i, 4 + j] = np.trace(T[i] @ t)
    return u


def rotation_to(r):
    """A rotation which takes z to r."""
    n = r / np.linalg.norm(r)
    h = np.eye(3)[int(np.argmin(np.abs(n)))]
    x = np.cross(h, n)
    x /= np.linalg.norm(x)
    return np.array([x, np.cross(n, x), n]).T


def reference(r):
    u = shell_rotation(rotation_to(np.array(r, float)))
    return {p: u @ CANON[p] @ u.T for p in PAR}


def ls_matrix():
    """<i s|L.S|j s'> as 18 x 18, index 2 * orbital + spin."""
    sig = [np.array([[0, 1], [1, 0]]), np.array([[0, -1j], [1j, 0]]), np.array([[1, 0], [0, -1]])]
    out = np.zeros((18, 18), complex)
    for k in range(3):
        L = np.zeros((9, 9), complex)
        L[1:4, 1:4] = -1j * EPS[k]
        for j in range(5):
            t = -1j * (EPS[k] @ T[j] - T[j] @ EPS[k])
            for i in range(5):
                L[4 + i, 4 + j] = np.trace(T[i] @ t)
        out += np.kron(L, 0.5 * sig[k])
    return out


LS = ls_matrix()
# directions almost along an axis, in a plane or along a diagonal, and generic ones
NEAR = [[x * s, y * t, z * u] for x, y, z in
        ((1, 0.001, 0), (1, 1e-6, 1e-6), (1, 1e-9, 0), (1, 1, 1e-5), (1, 1.000001, 1), (0.05, 0.06, 1), (1e-4, 1, 2e-4),
         (math.sqrt(2), math.pi, 0.7), (0.123, -0.0717, 0.335), (100.0, 99.0, 0.5))
        for s in (1, -1) for t in (1, -1) for u in (1, -1)] + \
       [[x, y, z] for x, y, z in itertools.permutations((1.0, 1e-3, 1e-6))]
BOUNDS = {"quick": "all 81 orbital pairs x all 728 directions with integer components -4..4 (and 86 directions close to axes, planes and diagonals; 3 lengths) x the 10 unit vectors "
                   "of the parameter space and 4 mixed ones, through both interfaces; all spin-orbit elements of 3 implementations "
                   "and all histories of two evaluations",
          "thorough": "directions with components -7..7"}


def cases(tier):
    b = 4 if tier == "quick" else 7
    for x in range(-b, b + 1):
        for y in range(-b, b + 1):
            yield ["SK", x, y, b]
    for q in range(len(NEAR)):
        yield ["SK", q, None, NEAR[q]]
    yield ["SKX"]
    for c in ("SOC", "SOCTable", "SOCTable2"):
        yield ["LS", c]
        for l in ALL:
            yield ["H", c, l]


def run(case, ctx):
    if case[0] == "SK":
        _, x, y, b = case
        near = b if isinstance(b, list) else None
        sk = tb.SK()
        mixed = [{p: w for p, w in zip(PAR, ws)} for ws in
                 ([1.0, -0.5, 0.3, 2.0, -0.7, 1.1, 0.9, -1.3, 0.4, 0.2], [-3, 2, 1, -1, 4, -2, 3, 1, -2, 5],
                  [0, 0, 0, 1, -1, 0.5, -0.5, 1, 1, 1], [0.1 * i for i in range(10)])]
        for z in (range(-b, b + 1) if near is None else [0]):
            if near is None and (x, y, z) == (0, 0, 0):
                continue
            for scale in (1.0, 0.0142, 37.0):
                r = np.array([x, y, z] if near is None else near, float) * scale
                r0 = r.copy()
                w = reference(r)
                sets = [{p: 1.0} for p in PAR] + mixed if scale == 1.0 else mixed[:1]
                for ps in sets:
                    want = sum(v * w[p] for p, v in ps.items())
                    got = np.array([[sk.eval(r, i, j, **ps) for j in ALL] for i in ALL])
                    ctx.close(got, want, f"integrals {ALL} at {r.tolist()} with {ps}", 1e-9)
                    ctx.step(81)
                    ctx.state(x, y, z, scale, str(ps))
                if near is None and scale == 1.0:
                    # the same displacement as integer array and strided view
                    for form in (np.array([x, y, z]), np.array([x, 9, y, 9, z], float)[::2]):
                        got = np.array([[sk.eval(form, i, j, **mixed[0]) for j in ALL] for i in ALL])
                        ctx.close(got, sum(v * w[p] for p, v in mixed[0].items()), f"integrals at {form!r}", 1e-9)
                ctx.true((r == r0).all(), "the displacement vector was modified")
                # direct interface
                v = mixed[0]
                want = sum(v[p] * w[p] for p in PAR)

                def at(i, j):
                    return want[ALL.index(i), ALL.index(j)]
                ctx.close(sk.ss(v_sss=v["v_sss"]), at("s", "s"), "ss", 1e-9)
                for p in P:
                    ctx.close(sk.sp(r, p, v_sps=v["v_sps"]), at("s", p), f"sp {p} {r}", 1e-9)
                    ctx.close(sk.ps(r, p, v_sps=v["v_sps"]), at(p, "s"), f"ps {p} {r}", 1e-9)
                    for q in P:
                        ctx.close(sk.pp(r, p, q, v["v_pps"], v["v_ppp"]), at(p, q), f"pp {p} {q} {r}", 1e-9)
                    for d in D:
                        ctx.close(sk.pd(r, p, d, v["v_pds"], v["v_pdp"]), at(p, d), f"pd {p} {d} {r}", 1e-9)
                        ctx.close(sk.dp(r, label_p=p, label_d=d, v_pds=v["v_pds"], v_pdp=v["v_pdp"]), at(d, p), f"dp {d} {p} {r}", 1e-9)
                for d in D:
                    ctx.close(sk.sd(r, d, v_sds=v["v_sds"]), at("s", d), f"sd {d} {r}", 1e-9)
                    ctx.close(sk.ds(r, d, v_sds=v["v_sds"]), at(d, "s"), f"ds {d} {r}", 1e-9)
                    for e in D:
                        ctx.close(sk.dd(r, d, e, v["v_dds"], v["v_ddp"], v["v_ddd"]), at(d, e), f"dd {d} {e} {r}", 1e-9)
                ctx.step(81)
                ctx.trace(f"direction {r.tolist()}")
    elif case[0] == "SKX":
        sk = tb.SK()
        r = np.array([0.1, 0.2, 0.3])
        for bad in ("", "p", "dx", "pX", "dz", "f", None):
            for l in ALL:
                ctx.raises(lambda: sk.eval(r, bad, l), f"eval({bad},{l})")
                ctx.raises(lambda: sk.eval(r, l, bad), f"eval({l},{bad})")
                ctx.step(2)
        for i in ALL:
            for j in ALL:
                if (i, j) != ("s", "s"):
                    ctx.raises(lambda: sk.eval(np.zeros(3), i, j), f"eval({i},{j}) at zero distance")
                    ctx.step()
        for bad in ("", "p", "dz", "f", "s", None):
            for q in P:
                bd = "px" if bad == "s" else bad
                ctx.raises(lambda: sk.pp(r, bad, q, 1.0, 1.0), f"pp({bad},{q})", ValueError)
                ctx.raises(lambda: sk.pp(r, q, bad, 1.0, 1.0), f"pp({q},{bad})", ValueError)
                ctx.raises(lambda: sk.pd(r, q, bd, 1.0, 1.0), f"pd({q},{bd})", ValueError)
                ctx.raises(lambda: sk.dp(r, label_p=q, label_d=bd, v_pds=1.0, v_pdp=1.0), f"dp({bd},{q})", ValueError)
                ctx.step(4)
            for d in D:
                ctx.raises(lambda: sk.pd(r, bad, d, 1.0, 1.0), f"pd({bad},{d})", ValueError)
                ctx.raises(lambda: sk.dp(r, label_p=bad, label_d=d, v_pds=1.0, v_pdp=1.0), f"dp({d},{bad})", ValueError)
                ctx.raises(lambda: sk.dd(r, bad, d, 1.0, 1.0, 1.0), f"dd({bad},{d})", ValueError)
                ctx.raises(lambda: sk.dd(r, d, bad, 1.0, 1.0, 1.0), f"dd({d},{bad})", ValueError)
                ctx.step(4)
            for f in (sk.sp, sk.ps):
                ctx.raises(lambda: f(r, bad, v_sps=1.0), f"sp {bad}", ValueError)
            for f in (sk.sd, sk.ds):
                ctx.raises(lambda: f(r, bad, v_sds=1.0), f"sd {bad}", ValueError)
        for q in P:
            for f in (sk.sd, sk.ds):
                ctx.raises(lambda: f(r, q, v_sds=1.0), f"sd {q}", ValueError)
        for d in D:
            for f in (sk.sp, sk.ps):
                ctx.raises(lambda: f(r, d, v_sps=1.0), f"sp {d}", ValueError)
        ctx.trace("refused")
    elif case[0] == "LS":
        o = getattr(tb, case[1])()
        lab = [(l, s) for l in ALL for s in ("up", "down")]
        got = np.array([[o.eval(a[0], a[1], b[0], b[1]) for b in lab] for a in lab], complex)
        for i, a in enumerate(lab):
            for j, b in enumerate(lab):
                ctx.close(got[i, j], LS[i, j], f"{case[1]} <{a}|L.S|{b}>", 1e-9)
                ctx.state(case[1], a, b)
        ctx.step(324)
        ctx.close(got, got.conj().T, "not Hermitian", 1e-12)
        want = [0.0] * 2 + [-1.0] * 2 + [0.5] * 4 + [-1.5] * 4 + [1.0] * 6
        ctx.close(np.linalg.eigvalsh(got), np.sort(want), "multiplets", 1e-9)
        for bad in ("", "p", "f", None, "dyx"):
            ctx.raises(lambda: o.eval(bad, "up", "s", "up"), f"label {bad}")
            ctx.raises(lambda: o.eval("s", "up", bad, "up"), f"label {bad}")
        for bad in ("", "Up", None, "left"):
            ctx.raises(lambda: o.eval("s", bad, "s", "up"), f"spin {bad}")
            ctx.raises(lambda: o.eval("s", "up", "s", bad), f"spin {bad}")
        ctx.trace(case[1])
    else:
        # all histories of two evaluations on one object which start with this bra
        first = [(case[2], s, l, t) for s in ("up", "down") for l in ALL for t in ("up", "down")]
        every = [(a, s, b, t) for a in ALL for s in ("up", "down") for b in ALL for t in ("up", "down")]
        for f in first:
            o = getattr(tb, case[1])()
            o.eval(*f)
            for g in every:
                i = 2 * ALL.index(g[0]) + (g[1] == "down")
                j = 2 * ALL.index(g[2]) + (g[3] == "down")
                ctx.true(abs(o.eval(*g) - LS[i, j]) < 1e-9, lambda: f"{case[1]} {g} after {f} and all before it")
            ctx.step(len(every))
            ctx.state("H", case[1], f)
        ctx.trace(f"{case[1]} histories from {case[2]}")
