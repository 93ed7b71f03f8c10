"""Q06: node and edge samplers draw existing elements of the asked types, with the asked probabilities."""
import fractions
import itertools
import math
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import harness as H  # noqa: E402
import enginelib as E  # noqa: E402
import querylib as Q  # noqa: E402

check = H.Check("Q06", rule="one evaluation = one outcome of all draws of one sampling request (and one order of replies), with its exact "
                "probability; distinct = different (request, answer)",
                assumptions=["draws are independent and uniform; a continuous draw is taken at the middle of equal cells",
                             "at most one edge between two nodes for each type",
                             "no more elements are asked for without replacement than exist; not all weights are zero"])

F = fractions.Fraction
KINDS = ("weighted", "uniform", "withoutreplacement")
WEIGHTS = {1: [(1,)], 2: [(1, 1), (1, 3), (0, 2)], 3: [(1, 1, 2), (3, 0, 1)], 4: [(1, 1, 1, 1), (2, 1, 0, 1)]}
TYPES = {1: [(0,), (2,)], 2: [(0, 0), (0, 1), (2, 0)], 3: [(0, 0, 0), (0, 0, 1), (0, 1, 2), (1, 0, 1)], 4: [(0, 0, 0, 1), (0, 1, 1, 0), (2, 1, 0, 0)]}
GROUPS = {1: [((0,),), ((), (0,)), ((0,), ())], 2: [((0,), (1,)), ((0, 1),), ((1,), (), (0,))], 3: [((0,), (1,), (2,)), ((2, 0), (1,))]}
MOST = 20000 if H.THOROUGH else 500
BASE = 101


def cases():
    out = []
    for k in (1, 2, 3, 4):
        for types in TYPES[k]:
            for n, where in enumerate(itertools.product(range(min(k, 3)), repeat=k)):
                parts = max(where) + 1
                if len(set(where)) != parts or k == 4 and (n % 3 and not H.THOROUGH):
                    continue
                for kind in KINDS:
                    for w in WEIGHTS[k] if kind == "weighted" else WEIGHTS[k][:1]:
                        for groups in [None] + GROUPS[parts][:2 if k == 4 and not H.THOROUGH else None]:
                            for edge in (False, True):
                                out.append((kind, types, w, where, groups, edge))
    for types, where in (((0, 0, 1), (0, 0, 0)), ((0, 1, 1), (0, 1, 0)), ((1, 0), (1, 0))):
        for groups in (None, tuple((p,) for p in range(max(where) + 1))):
            for pair in itertools.product(KINDS, repeat=2):
                for edge in (False, True):
                    out.append(("client",) + pair + (types, where, groups, edge))
    return out


def layout(types, w, where, edge):
    parts = max(where) + 1
    if edge:
        recs = [(BASE + i, 0, 1.0, ()) for i in range(len(types))]
        edges = [(BASE + i, (201 + i, types[i], float(w[i]), ())) for i in range(len(types))]
        return Q.spread(recs, edges, where, parts, where)
    return Q.spread([(BASE + i, types[i], float(w[i]), ()) for i in range(len(types))], [(BASE, (5, 0, 1.0, ()))], (0,), parts, where)


def whole(lay):
    d = E.folder(E.files(lay))
    return d, [(d, p) for p in range(len(lay))]


def apart(lay):
    """Every partition in a folder of its own, below the one with the metadata."""
    files = E.files(lay)
    d = E.folder({"meta.json": files.pop("meta.json")})
    parts = []
    for p in range(len(lay)):
        sub = os.path.join(d, "part%d" % p)
        os.mkdir(sub)
        for k, v in files.items():
            if k.rsplit(".", 1)[0].endswith("_%d" % p if k.endswith(".alias") else "_%d_0" % p):
                with open(os.path.join(sub, k), "wb") as f:
                    f.write(v)
        parts.append((sub, p))
    return d, parts


def shape(types, asked, edge):
    """Population: position -> what an answer shows."""
    return {((BASE + i, 201 + i, tp) if edge else (BASE + i, tp)): i for i, tp in enumerate(types) if asked == -1 or tp in asked}


def cells(kind, types, w, where, asked):
    den = {1}
    for p in set(where):
        for tp in set(types):
            ix = [i for i in range(len(types)) if where[i] == p and types[i] == tp and (asked == -1 or tp in asked)]
            if ix:
                den.add(len(ix))
                if kind == "weighted" and sum(w[i] for i in ix):
                    s = F(sum(w[i] for i in ix))
                    den.update((F(w[i]) * len(ix) / s).denominator for i in ix)
    return math.lcm(*den)


def wrong(kind, pop, rows, count):
    if len(rows) != count:
        return "%d elements" % len(rows)
    for x in rows:
        if x not in pop:
            return "%r is not among %r" % (x, sorted(pop))
    if kind == "withoutreplacement" and len(set(rows)) != count:
        return "%r has repetitions" % (rows,)
    return None


def rows_of(r):
    return [tuple(int(v) for v in x) for x in zip(*r)]


def run(case, t):
    if case[0] == "client":
        return facade(case, t)
    kind, types, w, where, groups, edge = case
    lay = layout(types, w, where, edge)
    t.sample({"layout": repr(lay)[:300], "servers": repr(groups), "kind": kind})
    d, parts = apart(lay) if max(where) and not any(where[:1]) else whole(lay)
    c = E.Cluster(d, [[parts[p] for p in ps] for ps in groups]) if groups else E.Local(d, parts)
    tag = ("edges" if edge else "nodes") + (":cluster" if groups else "") + ":" + kind
    try:
        for asked in [-1] + [[x] for x in sorted(set(types))] + [[max(types) + 4, min(types)]]:
            pop = shape(types, asked, edge)
            if kind == "weighted" and not sum(w[i] for i in pop.values()):
                continue
            where_ = "%r on %r, %s %s of %r" % (lay, groups, kind, "edges" if edge else "nodes", asked)
            s = (E.mods()[0].EdgeSampler if edge else E.mods()[0].NodeSampler)(c.g, asked, kind)
            for count in (1, 2, 3):
                if kind == "withoutreplacement" and count > len(pop):
                    continue
                if not draw(t, case, s, count, kind, types, w, where, groups, asked, pop, tag, where_):
                    break
            size = 6 if kind != "withoutreplacement" else len(pop)
            seen = set()
            for seed in range(1, 17):
                a = {tuple(rows_of(s.sample(size, seed)))}
                for r in E.explore(lambda: rows_of(s.sample(size, seed)), E.ORDER, t) if groups and seed < 3 else ():
                    a.add(tuple(r.result))
                a.add(tuple(rows_of(s.sample(size, seed))))
                if len(a) > 1:
                    t.violation(tag + ":seed", "%s, the same seed gives %r" % (where_, sorted(a)), case)
                    break
                seen |= a
            else:
                if len(seen) == 1 and kind != "withoutreplacement" and len([i for i in pop.values() if kind == "uniform" or w[i]]) > 1:
                    t.violation(tag + ":seed", "%s, 16 seeds always give %r" % (where_, sorted(seen)), case)
            s.reset()
            s.reset = lambda: None
    finally:
        c.close()
        E.remove(d)


def draw(t, case, s, count, kind, types, w, where, groups, asked, pop, tag, text):
    spans = {}
    for i in pop.values():
        spans.setdefault((where[i], types[i]), []).append(i)
    g, tol, most, unit = cells(kind, types, w, where, asked), 1e-6, MOST, {i: i for i in pop.values()}
    if kind == "withoutreplacement" and count < len(pop):
        if len(spans) == 1 and count == len(pop) - 1:
            g, tol, most = [16, 16, count, 1, 1, 1], 0.05, 10 ** 6
        else:
            g, unit = 1, {i: k for k, ix in spans.items() for i in ix}
    want, total = {}, sum(w[j] for j in pop.values())
    for i in pop.values():
        want[unit[i]] = want.get(unit[i], 0) + (F(w[i], total) if kind == "weighted" else F(1, len(pop)))
    for flags, g in ((E.RANDOM, g), (E.RANDOM | E.ORDER, 1)) if groups and len(groups) > 1 else ((E.RANDOM, g),):
        mass, got, n = 0.0, {}, 0
        for r in E.explore(lambda: rows_of(s.sample(count, 5)), flags, t, grid=g):
            n += 1
            err = wrong(kind, pop, r.result, count) if r.error is None else "%s: %s" % (type(r.error).__name__, str(r.error)[:200])
            if err is not None:
                t.violation(tag, "%s, %d asked for, draws %r: %s" % (text, count, r.script, err), case)
                return False
            t.state(tag, case, asked, tuple(r.result))
            if n > most or n == 1 and math.prod(x[1] for x in r.trace) > 8 * most:
                t.count("left out")
                n = most + 1
                break
            mass += r.prob
            for v in r.result:
                got[unit[pop[v]]] = got.get(unit[pop[v]], 0.0) + r.prob / count
        if flags & E.ORDER or n > most:
            continue
        if abs(mass - 1) > 1e-6:
            raise RuntimeError("probabilities add up to %r" % mass)
        if any(abs(got.get(i, 0.0) - want[i]) > tol for i in want):
            some = all(got.get(i) for i in want)
            t.violation("uneven:withoutreplacement" if unit[min(unit)] != min(unit) and some else tag + ":share",
                        "%s, %d asked for: expected shares %s, should be %s" % (
                            text, count, {i: round(v, 4) for i, v in sorted(got.items())}, {i: str(v) for i, v in want.items()}), case)
    return True


def facade(case, t):
    """Two strategies for the same types through the Graph interface."""
    _, first, second, types, where, groups, edge = case
    w = (1,) * len(types)
    lay = layout(types, w, where, edge)
    d = E.folder(E.files(lay))
    client, server, local, distributed = E.mods()
    S = {"weighted": local.SamplingStrategy.Weighted, "uniform": local.SamplingStrategy.Random,
         "withoutreplacement": local.SamplingStrategy.RandomWithoutReplacement}
    servers = []
    if groups:
        servers = [server.Server(d, [(d, p) for p in ps], "s%d" % i) for i, ps in enumerate(groups)]
        g = distributed.Client(["s%d" % i for i in range(len(groups))])
    else:
        g = local.Client(d, list(range(max(where) + 1)))
    np = E.np

    def ask(kind, tp, count):
        if edge:
            r = [tuple(int(v) for v in x) for x in g.sample_edges(count, tp, S[kind])]
            return r
        r = g.sample_nodes(count, tp, S[kind])
        return [(int(x), tp) for x in r] if isinstance(tp, int) else rows_of(r)

    tag = "client:" + ("edges" if edge else "nodes")
    try:
        for tp in (int(types[0]), np.array(sorted(set(types)), dtype=np.int32)):
            asked = [tp] if isinstance(tp, int) else tp.tolist()
            pop = shape(types, asked, edge)
            count = min(2, len(pop))
            for kind in (first, second):
                for n, r in enumerate(E.explore(lambda: ask(kind, tp, count), E.RANDOM | (E.ORDER if groups else 0), t, grid=2)):
                    err = wrong(kind, pop, r.result, count) if r.error is None else "%s: %s" % (type(r.error).__name__, str(r.error)[:200])
                    if err is not None:
                        t.violation(tag, "%r on %r, %s of %r after %s, draws %r: %s" % (lay, groups, kind, asked, first, r.script, err), case)
                        return
                    t.state(tag, case, tuple(asked), kind, tuple(r.result))
                    if n > MOST:
                        break
    finally:
        g.reset()
        g.node_samplers.clear()
        g.edge_samplers.clear()
        for s in servers:
            s.reset()
        E.remove(d)


E.main(check, run, cases(), crash_key=lambda c: "crash:%s:%s" % (c[0], "local" if c[-2] is None else "cluster"))
