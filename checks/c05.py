"""C05: super-cell numbering: all dimensions and vacancy subsets up to a bound."""
import itertools

import numpy as np
import tbplas as tb

from lib import ref


def cell(n):
    r = ref.Cell([[1.0, 0.1, 0], [-0.2, 1.2, 0], [0.1, 0, 2.0]], (0.1, 0.2, 0.3), 1.0)
    for i in range(n):
        r.add_orbital((0.1 + 0.3 * i, 0.2 * i, 0.05 * i), 0.5 * i - 1)
    if n == 1:
        r.add_hopping((0, 0, 1), 0, 0, 1.0)   # dimension 3 along c at least
    else:
        r.add_hopping((0, 0), 0, n - 1, 1.0)
    return r


def scribble(a):
    """Results belong to the caller."""
    if isinstance(a, np.ndarray) and a.flags.writeable:
        a += 1


def check(ctx, sc, s, full=True):
    ids = s.ids()
    n = len(ids)
    ctx.equal(sc.num_orb_sc, n, "num_orb_sc")
    ctx.equal(sc.num_vac, len(s.vac), "num_vac")
    ctx.equal(sc.num_orb_pc, s.cell.n, "num_orb_pc")
    ctx.step()
    if n == 0:
        return
    a = np.array(ids, dtype=np.int32).reshape(-1, 4)
    for x in (np.arange(n), np.arange(n, dtype=np.int32), list(range(n)), np.arange(n)[::-1].copy()):
        w = a[np.array(x, dtype=int)]
        got = sc.orb_id_sc2pc_array(x)
        ctx.equal(np.asarray(got).tolist(), w.tolist(), "sc2pc_array")
        scribble(got)
        for y in (w, w.astype(np.int64), w.tolist()):
            ctx.equal(np.asarray(sc.orb_id_pc2sc_array(y)).tolist(), list(map(int, x)), "pc2sc_array")
    ctx.close(sc.get_orb_eng(), s.eng(), "get_orb_eng", 1e-12)
    ctx.close(sc.get_orb_pos(), s.pos(), "get_orb_pos", 1e-9)
    if not full:
        return
    for i, q in enumerate(ids):
        got = sc.orb_id_sc2pc(i)
        ctx.equal(tuple(int(t) for t in got), q, f"orb_id_sc2pc({i})")
        scribble(got)
        ctx.equal(tuple(int(t) for t in sc.orb_id_sc2pc(i)), q, f"orb_id_sc2pc({i}) after the first result was modified")
        ctx.equal(int(sc.orb_id_pc2sc(q)), i, f"orb_id_pc2sc({q})")
        ctx.equal(int(sc.orb_id_pc2sc(np.array(q, dtype=np.int32))), i, f"orb_id_pc2sc({q}) array")
        ctx.equal(int(sc.orb_id_pc2sc(np.array(q))), i, f"orb_id_pc2sc({q}) int64")
    d = s.dim
    bad = list(s.vac) + [(d[0], 0, 0, 0), (0, d[1], 0, 0), (0, 0, d[2], 0), (0, 0, 0, s.cell.n),
                         (-1, 0, 0, 0), (0, -1, 0, 0), (0, 0, -1, 0), (0, 0, 0, -1), (0, 0, 0),
                         (0, 0, 0, 0, 0)]
    for q in bad:
        ctx.raises(lambda: sc.orb_id_pc2sc(q), f"orb_id_pc2sc({q})")
        ctx.raises(lambda: sc.orb_id_pc2sc(np.array(q, dtype=np.int32)), f"orb_id_pc2sc({q}) array")
        if len(q) == 4:
            for pos in (0, n // 2, n):
                lst = list(ids)
                lst.insert(pos, q)
                ctx.raises(lambda: sc.orb_id_pc2sc_array(np.array(lst, dtype=np.int32)),
                           f"orb_id_pc2sc_array with {q} at {pos}")
        else:
            ctx.raises(lambda: sc.orb_id_pc2sc_array(np.array([q, q], dtype=np.int32)),
                       f"orb_id_pc2sc_array of {q}")
    for i in (-1, n, n + 7, -n):
        ctx.raises(lambda: sc.orb_id_sc2pc(i), f"orb_id_sc2pc({i})")
        for pos in (0, n // 2, n):
            lst = list(range(n))
            lst.insert(pos, i)
            ctx.raises(lambda: sc.orb_id_sc2pc_array(np.array(lst)), f"orb_id_sc2pc_array {i} at {pos}")
    ctx.raises(lambda: sc.orb_id_sc2pc_array(np.arange(n).reshape(1, -1)), "matrix of indices")


BOUNDS = {"quick": "dimensions up to 4 per direction, 1 to 3 orbitals, all vacancy subsets of up to 10 sites, "
                   "of size at most 2 (and their complements of size at most 1) of up to 36; all histories "
                   "of 3 vacancy edits; 21 super cells of up to 2700 sites x 12 patterns of vacancies",
          "thorough": "all subsets of up to 14 sites, of size at most 3 of up to 48; histories of 4 edits"}
CHUNK = 1


def dims(n):
    for d in itertools.product(range(1, 5), repeat=3):
        if n == 1 and d[2] < 3:
            continue
        yield d


def cases(tier):
    small, big = (10, 36) if tier == "quick" else (14, 48)
    for n in (1, 2, 3):
        for d in dims(n):
            t = n * d[0] * d[1] * d[2]
            if t <= small:
                yield ["all", n, d, 0]
            elif t <= big:
                yield ["few", n, d, 2 if tier == "quick" or t > 24 else 3]
    for n in (1, 2, 3):
        for d in ((17, 3, 3), (5, 11, 4), (40, 1, 3), (3, 40, 3), (9, 8, 7), (3, 3, 50), (301, 1, 3)):
            yield ["large", n, d, 0]
    for a in range(len(EDITS)):
        for b in range(len(EDITS)):
            yield ["hist", a, b, 3 if tier == "quick" else 4]


V = [(0, 0, 0, 0), (0, 0, 0, 1), (1, 0, 0, 0), (1, 1, 0, 1), (0, 1, 0, 0), (1, 1, 0, 0)]
EDITS = ([("add_vacancy", v) for v in V[:4]] +
         [("add_vacancies", [V[3], V[0]]), ("add_vacancies", [V[5], V[5], V[1]]), ("add_vacancies", []),
          ("add_arr", [V[2], V[4]]), ("set_vacancies", [V[4]]), ("set_vacancies", [V[1], V[0], V[5]]),
          ("set_vacancies", []), ("set_vacancies", None), ("read", None), ("orb", None), ("clear", None)])


def form(v):
    """The same vacancies as list of tuples or lists, array or set."""
    k = sum(sum(x) for x in v) % 5
    return (v, [list(x) for x in v], np.array(v), np.array(v, np.int32), set(v))[k]


def run(case, ctx):
    if case[0] == "hist":
        _, a, b, deep = case

        def rec(seq):
            r = cell(2)
            c = ref.build_cell(tb, r)
            s = ref.SC(r, (2, 2, 1))
            sc = tb.SuperCell(c, (2, 2, 1))
            for e in seq:
                op, arg = EDITS[e]
                if op == "read":
                    sc.get_hop(), sc.orb_id_pc2sc(s.ids()[0])
                elif op == "orb":
                    if r.n > 3:
                        return
                    c.unlock()
                    c.add_orbital((0.5, 0.5), 1.0)
                    r.add_orbital((0.5, 0.5), 1.0)
                elif op == "clear":
                    sc.set_vacancies()
                    s.vac = set()
                elif op == "add_vacancy":
                    sc.add_vacancy((arg, list(arg), np.array(arg), np.array(arg, np.int32))[sum(arg) % 4])
                    s.vac.add(arg)
                elif op == "add_arr":
                    sc.add_vacancies(np.array(arg, dtype=np.int32))
                    s.vac |= set(arg)
                else:
                    getattr(sc, op)(arg)
                    s.vac = (set() if op == "set_vacancies" else s.vac) | set(arg or ())
                ctx.step()
            ctx.case = ["hist", seq[0], seq[1], len(seq), seq[2:]]
            ctx.state("hist", s.key())
            check(ctx, sc, s, full=True)
            ctx.trace(f"{[EDITS[e] for e in seq]}")
            if len(seq) < deep:
                for e in range(len(EDITS)):
                    rec(seq + [e])
        rec([a, b] + (case[4] if len(case) > 4 else []))
        return
    kind, n, d, k = case
    r = cell(n)
    c = ref.build_cell(tb, r)
    sites = list(itertools.product(range(d[0]), range(d[1]), range(d[2]), range(n)))
    if kind == "all":
        subs = (s for m in range(len(sites)) for s in itertools.combinations(sites, m))
    else:
        subs = itertools.chain((s for m in range(k + 1) for s in itertools.combinations(sites, m)),
                               ([x for x in sites if x != y] for y in sites))
    if kind == "large":
        m = len(sites)
        subs = [[x for i, x in enumerate(sites) if f(i)] for f in (
            lambda i: False, lambda i: i % 2 == 0, lambda i: i % 2, lambda i: (7 * i * i + 3 * i) % 5 == 1,
            lambda i: (7 * i * i + i) % 11 < 9, lambda i: i < m // 2, lambda i: i >= m // 2, lambda i: i % 37 == 5,
            lambda i: i in (0, m - 1), lambda i: i != m // 3, lambda i: m // 4 < i < m - 3, lambda i: i * i % 17 in (0, 1, 4))]
    num = 0
    for sub in subs:
        s = ref.SC(r, d, (num & 1, num >> 1 & 1, num >> 2 & 1), sub)
        sc = tb.SuperCell(c, tuple(d), pbc=tuple(bool(x) for x in s.pbc),
                          vacancies=form(list(sub)[::-1]) if len(sub) else None)
        num += 1
        ctx.state(n, tuple(d), tuple(sorted(sub)))
        check(ctx, sc, s, full=(kind == "all" or len(sub) < 2))
        if kind == "large":
            ids = s.ids()
            for i in range(0, len(ids), 1 if len(ids) < 300 else 7):
                ctx.equal(tuple(int(t) for t in sc.orb_id_sc2pc(i)), ids[i], f"orb_id_sc2pc({i})")
                ctx.equal(int(sc.orb_id_pc2sc(ids[i])), i, f"orb_id_pc2sc({ids[i]})")
            for q in list(sub)[::5]:
                ctx.raises(lambda: sc.orb_id_pc2sc(q), f"orb_id_pc2sc({q})")
                ctx.raises(lambda: sc.orb_id_pc2sc_array(np.array([ids[0], q], dtype=np.int32)), f"array with {q}")
        ctx.trace(f"{n} orbitals {d} vacancies {sub if len(sub) < 20 else len(sub)}")
