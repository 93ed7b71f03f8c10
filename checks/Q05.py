"""Q05: neighbours are sampled with the requested probabilities."""
import fractions
import itertools
import math
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import harness as H  # noqa: E402
import enginelib as E  # noqa: E402
import querylib as Q  # noqa: E402

check = H.Check("Q05", rule="one evaluation = one outcome of all draws of one request, with its exact probability; the sums over the whole "
                "tree of draws are compared with the requested probabilities; distinct = different (request, order of replies)",
                assumptions=["draws are independent and uniform; a continuous draw is taken at the middle of equal cells whose bounds "
                             "include every threshold of the request",
                             "samples without replacement inside of one server: probabilities with a tolerance of 0.04"])

F = fractions.Fraction
WEIGHTS = {1: [(1,)], 2: [(1, 1), (1, 3), (0, 2)], 3: [(1, 1, 2), (2, 1, 1), (1, 0, 1)], 4: [(1, 1, 1, 1)]}
TYPES = {1: [(0,)], 2: [(0, 0), (0, 1)], 3: [(0, 0, 0), (0, 0, 1), (0, 1, 1), (0, 1, 2)], 4: [(0, 0, 0, 0), (0, 0, 1, 1), (0, 1, 2, 3)]}
GROUPS = {1: [((0,),)], 2: [((0,), (1,)), ((0, 1),)], 3: [((0,), (1,), (2,)), ((2, 0), (1,)), ((0,), (1, 2))]}
MOST = 100000 if H.THOROUGH else 1500


def cases():
    out = []
    for k in (1, 2, 3, 4):
        for types in TYPES[k]:
            for where in itertools.product(range(min(k, 3)), repeat=k):
                parts = max(where) + 1
                if len(set(where)) != parts or list(dict.fromkeys(where)) != sorted(set(where)) and k == 4:
                    continue
                for kind in ("weighted", "uniform", "distinct"):
                    for w in WEIGHTS[k] if kind == "weighted" else WEIGHTS[k][:1]:
                        for groups in [None] + GROUPS[parts]:
                            for count in (1, 2, 3):
                                out.append((kind, types, w, where, groups, count, None))
                                if count < 3 and parts < 3 and (groups is None or len(groups) == parts):
                                    # a temporal graph with all edges, or all but one, valid at the time
                                    for gone in range(-1, k):
                                        if sum(w[:gone] + w[gone + 1:] if gone >= 0 else w):
                                            out.append((kind, types, w, where, groups, count, gone))
    return out


def spans(case):
    """Per partition and type the positions of the edges, in the order of the file, split at an edge that is not valid."""
    kind, types, w, where, groups, count, gone = case
    out = {}
    for i in range(len(types)):
        if i != gone:
            after = gone is not None and 0 <= gone < i and (where[gone], types[gone]) == (where[i], types[i])
            out.setdefault((where[i], types[i], after), []).append(i)
    return out


def grid(case):
    """The number of cells such that every threshold is a bound between cells."""
    kind, types, w, where, groups, count, gone = case
    w = [w[i] if kind == "weighted" else 1 for i in range(len(types))]
    den = {1}

    def ratio(a, b):
        if b:
            den.add(F(a, b).denominator)

    sums, per = {}, {}
    for (p, _, _), ix in spans(case).items():
        x = [w[i] for i in ix]
        for k in range(len(x)):
            ratio(sum(x[:k]), sum(x))
        sums[p] = sums.get(p, 0) + sum(x)
        per.setdefault(p, []).append(sum(x))
    for group in groups or (tuple(sorted(sums)),):
        x = [sums[p] for p in group if p in sums]
        # weighted: partition by partition, uniform: type by type in every partition
        y = x if kind == "weighted" else [v for p in group if p in per for v in per[p]]
        for k in range(len(y)):
            ratio(y[k], sum(y[:k + 1]))
    if groups:
        z = [sum(sums.get(p, 0) for p in g) for g in groups]
        for a in itertools.permutations(z):
            for k in range(len(a)):
                ratio(a[k], sum(a[:k + 1]))
        if kind == "uniform":
            for x in z:
                if x:
                    den.add(x)
        if kind == "distinct":
            n = sum(z)
            den.update(range(1, n + 1))
    return math.lcm(*den)


def shares(case):
    """Wanted expected share of every edge among the sampled positions."""
    kind, types, w, where, groups, count, gone = case
    n = len(types)
    if kind != "weighted":
        w = [1] * n
    w = [0 if i == gone else x for i, x in enumerate(w)]
    if kind == "distinct":
        return [x * min(F(1), F(count, sum(w))) / count for x in w]
    return [F(x, sum(w)) for x in w]


def run(case, t):
    kind, types, w, where, groups, count, gone = case
    n = len(types)
    edges = [(1, (100 + i, types[i], float(w[i]) if kind == "weighted" else 1.0, ()) + (() if gone is None else (
        ((0, 3), (3, E.NEVER))[i % 2] if i == gone else ((1, 5), (2, E.NEVER))[i % 2],))) for i in range(n)]
    parts = max(where) + 1
    lay = Q.spread([(1, 0, 1.0, ()), (2, 1, 1.0, ())], edges, where, parts, (0, parts - 1))
    s = Q.Sample(kind, [1], sorted(set(types)), count, None if gone is None else [3 if gone % 2 == 0 else 2])
    g, tol, m = grid(case), 1e-6, MOST
    if kind == "distinct":
        valid = [p for i, p in enumerate(where) if i != gone]
        inner = max(sum(p in x for p in valid) for x in groups) if groups else len(valid)
        if inner > count:
            # a reservoir in one server: its draws are functions of logarithms
            more = len(valid) > count + 1
            if groups and len(groups) > 1 or more and (count > 1 or n > 3 or gone is not None and gone >= 0):
                t.count("reservoirs left out")
                return
            g, tol, m = [20, 20, count, 1, 1, 1], 0.04, 10 ** 6
            if more:
                # two elements may replace the sample: the second step depends on the first one
                g, tol = [8, 8, count, 8, 8, 1, 1, 1], 0.05
    d = E.folder(E.files(lay, watermark=-1 if gone is None else 0))
    c = E.Cluster(d, groups) if groups else E.Local(d, [(d, p) for p in range(parts)])
    try:
        found = judge(case, t, s, c.g, g, tol, m, lay)
        if found is False:
            t.count("too large")
        again = found
        if found and found[0] not in ("error", "weighted:several"):
            # thresholds at other places than expected are no bias: it has to show in finer cells too
            again = judge(case, t, s, c.g, 12, 0.1 if isinstance(g, list) else tol, 200000, lay)
            if again is None:
                t.count("not confirmed")
        if again or found and again is False:
            t.violation(*(again or found), case)
    finally:
        c.close()
        E.remove(d)


def judge(case, t, s, g, cells, tol, most, lay):
    kind, types, w, where, groups, count, gone = case
    n = len(types)
    mass, got, sets = {}, {}, {}
    runs = 0
    for r in E.explore(lambda: s.ask(g), E.RANDOM | (E.ORDER if groups else 0), t, grid=cells):
        runs += 1
        if r.error is not None:
            return "error", "%r on %r, %s: %s" % (lay, groups, s.name, r.error)
        if runs > most or runs == 1 and math.prod(n for _, n, _, _ in r.trace) > 4 * most:
            return False
        o = tuple(c for k, _, c, _ in r.trace if k == E.ORDER)
        mass[o] = mass.get(o, 0.0) + r.prob
        x = got.setdefault(o, [0.0] * n)
        row = [v[0] - 100 for v in r.result[0]]
        for i in row:
            if 0 <= i < n:
                x[i] += r.prob / count
        y = sets.setdefault(o, {})
        y[tuple(sorted(row))] = y.get(tuple(sorted(row)), 0.0) + r.prob
    want = shares(case)
    for o, x in got.items():
        t.state(s.name, repr(lay), groups, o)
        if abs(mass[o] - 1) > 1e-6:
            t.count("mixed")
            continue
        bad = [i for i in range(n) if abs(x[i] - want[i]) > tol]
        if bad:
            # several samples from several partitions of one server
            spread = count > 1 and any(seen > 2 or seen == 2 and len([k for k in spans(case) if k[0] in y]) > 2
                                       for y in groups or (set(where),) for seen in [len(set(where) & set(y))])
            return ("%s:%s" % (kind, "several" if spread and kind == "weighted" else "local" if not groups else "cluster"),
                    "%r on %r, replies in order %r, %s: expected shares %s, should be %s" %
                    (lay, groups, o, s.name, ["%.4f" % v for v in x], [str(v) for v in want]))
        m = n - (gone is not None and gone >= 0)
        if kind == "distinct" and m > count:
            u = 1.0 / math.comb(m, count)
            bad = [(c, p) for c, p in sets[o].items() if abs(p - u) > tol]
            if bad or len(sets[o]) != math.comb(m, count):
                return ("%s:%s:sets" % (kind, "local" if not groups else "cluster"),
                        "%r on %r, replies in order %r, %s: probabilities of the sets %r, should be %.4f each" %
                        (lay, groups, o, s.name, sets[o], u))


E.main(check, run, cases(), crash_key=lambda c: "crash:%s" % ("local" if c[4] is None else "cluster"))
