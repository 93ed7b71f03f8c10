"""Q07: random walks and PageRank samples follow the edges of the graph."""
import fractions
import itertools
import math
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import harness as H  # noqa: E402
import enginelib as E  # noqa: E402
import querylib as Q  # noqa: E402

check = H.Check("Q07", rule="one evaluation = one outcome of all draws of one walk (and one order of replies) with its exact probability, or "
                "one PageRank request; distinct = different (request, walk) or (request, answer)",
                assumptions=["draws are independent and uniform; a continuous draw is taken at the middle of equal cells whose bounds "
                             "include every threshold of the step",
                             "the default is not a node of the graph; a node with neighbours has one of positive weight",
                             "a walk may return to the node it came from against the direction of the edge"])

F = fractions.Fraction
IDS = (3, 0, 7)
PQ = ((F(1), F(1)), (F(1, 2), F(2)), (F(2), F(1, 2)))
NEVER = E.NEVER
MOST = 20000 if H.THOROUGH else 600


def graphs():
    """(edges (src, dst, type, weight), ...) over IDS: all plain graphs with few edges, and ones with types and weights."""
    pairs = [(a, b) for a in IDS for b in IDS]
    for k in range(5):
        for es in itertools.combinations(pairs, k):
            yield tuple((a, b, 0, 1) for a, b in es)
    # with every edge its reverse, with weights
    sym = [((3, 0),), ((3, 0), (0, 7)), ((3, 0), (3, 7)), ((3, 0), (0, 7), (3, 7)), ((3, 3), (3, 0)), ((3, 0), (0, 0), (0, 7)), ((3, 3),)]
    for es in sym:
        for w in itertools.product((1, 2), repeat=len(es)):
            out = []
            for (a, b), x in zip(es, w):
                out += [(a, b, 0, x)] + ([(b, a, 0, x)] if a != b else [])
            yield tuple(out)
    # several types, also for the same pair of nodes
    for es in itertools.combinations([(3, 0, 0, 1), (3, 0, 1, 2), (0, 3, 0, 1), (0, 3, 1, 2), (0, 7, 1, 1), (3, 3, 1, 1), (7, 3, 0, 2)], 4):
        yield es


def cases():
    out = []
    for n, es in enumerate(graphs()):
        for how in ((None, 1), (None, 2), (((0,), (1,)), 2)):
            if how[1] == 2 and (len(es) < 2 or n % 3 and n < 256 and not H.THOROUGH):
                continue
            out.append(("walk", es, how, None))
            out.append(("rank", es, how, None))
    for es in (((3, 0, 0, 1), (0, 3, 0, 1), (0, 7, 0, 1)), ((3, 0, 0, 1), (3, 7, 0, 2), (0, 7, 1, 1), (7, 3, 0, 1)),
               ((3, 0, 0, 1), (0, 7, 0, 1), (7, 3, 0, 1), (3, 7, 0, 1))):
        spans = ((0, NEVER), (5, NEVER), (0, 5), (2, 8))
        for times in itertools.product(spans, repeat=len(es)) if len(es) < 4 else zip(spans * 4, spans[1:] * 5, spans[2:] * 8, spans[3:] * 16):
            for how in ((None, 1), (((0,), (1,)), 2)):
                out.append(("walk", es, how, times))
                out.append(("rank", es, how, times))
    # longer walks
    pairs = [(a, b) for a in IDS + (5,) for b in IDS + (5,) if (a, b) not in ((3, 0), (0, 7))]
    for k in range(4):
        for es in itertools.combinations(pairs, k):
            out.append(("long", tuple((a, b, 0, 1) for a, b in ((3, 0), (0, 7)) + es), (None, 1), None))
    return out


def moves(nbs, t, v, p, q):
    """Unnormalised probabilities of the next node after the step from t to v; {} is a dead end."""
    out = {}
    if t is None:
        for x, w in nbs(v):
            out[x] = out.get(x, 0) + w
        return out
    near = {}
    for x, w in nbs(t):
        near[x] = near.get(x, 0) + w
    for x, w in nbs(v):
        if x != t:
            out[x] = out.get(x, 0) + (w if x in near else w / q)
    back = near.get(v, 0) or sum(w for x, w in nbs(v) if x == t)
    if back:
        out[t] = back / p
    return out


def walks(nbs, start, n, p, q, default):
    """{walk: probability} and for every step the number of cells that separates all outcomes."""
    cur, cells = {(start,): F(1)}, []
    for _ in range(n):
        nxt, den = {}, 1
        for w, pr in cur.items():
            if w[-1] is None:
                nxt[w + (None,)] = nxt.get(w + (None,), 0) + pr
                continue
            m = moves(nbs, w[-2] if len(w) > 1 else None, w[-1], p, q)
            s = sum(m.values())
            if not m:
                nxt[w + (None,)] = pr
            for x, a in m.items():
                den = math.lcm(den, (a / s).denominator)
                nxt[w + (x,)] = pr * a / s
        cur = nxt
        cells.append(den)
    return {tuple(default if x is None else x for x in w): pr for w, pr in cur.items()}, cells


def rank(nbs, start, alpha):
    """Personalised PageRank of all nodes."""
    nodes = sorted(set(IDS) | {start})
    out, r = {x: 0.0 for x in nodes}, {start: 1.0}
    for _ in range(400):
        nxt = {}
        for u, m in r.items():
            out[u] += alpha * m
            ns = [x for x, _ in nbs(u)]
            for x in ns:
                nxt[x] = nxt.get(x, 0.0) + (1 - alpha) * m / len(ns)
        r = nxt
        if sum(r.values()) < 1e-9:
            break
    return out


def run(case, t):
    kind, es, (groups, parts), times = case
    edges = [(a, (b, tp, float(w), ()) + ((times[i],) if times else ())) for i, (a, b, tp, w) in enumerate(es)]
    ids = IDS + ((5,) if kind == "long" else ())
    lay = Q.spread([(x, 0, 1.0, ()) for x in ids], edges, [i % parts for i in range(len(es))], parts, [0] * len(ids))
    ref = E.Ref(lay)
    d = E.folder(E.files(lay, 10 if times else -1))
    c = E.Cluster(d, groups) if groups else E.Local(d, [(d, p) for p in range(parts)])
    try:
        {"walk": walk, "rank": pagerank, "long": long_walk}[kind](t, c.g, ref, case, "%r on %r" % (lay, groups))
    finally:
        c.close()
        E.remove(d)


def asked(es):
    ts = sorted({e[2] for e in es} or {0})
    return [ts] + ([[x] for x in ts] if len(ts) > 1 else [])


def neighbours(ref, types, ts):
    return lambda u: [(x[0], F(x[1])) for x in ref.neighbors(u, types, ts)]


def key(case):
    return ("cluster" if case[2][0] else "local") + (":temporal" if case[3] else "")


def walk(t, g, ref, case, text):
    order = E.ORDER if case[2][0] and len(case[1]) < 4 else 0
    for types in asked(case[1]):
        for ts in (0, 4, 5, 9) if case[3] else (None,):
            nbs = neighbours(ref, types, ts)
            for p, q in PQ:
                for start in IDS + (99,) if p == 1 else IDS:
                    want, cells = walks(nbs, start, 2, p, q, -4)
                    exact = math.prod(cells) <= MOST
                    if not exact:
                        t.count("left out")
                    if not one(t, lambda: g.random_walk([start], types, 2, float(p), float(q), -4, 5, None if ts is None else [ts]),
                               [want], order, cells + [1] if exact else 2, exact,
                               "%s: walk from %d over %r at %s, p=%s q=%s" % (text, start, types, ts, p, q), case):
                        return
            both = [IDS[0], IDS[1]]
            # several walks at a time, which differ in time as well
            tss = None if ts is None else [ts, 9]
            want = [walks(neighbours(ref, types, None if ts is None else tss[i]), x, 3, F(2), F(1, 2), -4)[0] for i, x in enumerate(both)]
            if not one(t, lambda: g.random_walk(both, types, 3, 2.0, 0.5, -4, 5, tss), want, 0, 2, False,
                       "%s: walks from %r over %r at %s" % (text, both, types, tss), case):
                return
    if not case[3]:
        for n in (0, 4):
            a, b = (g.random_walk(list(IDS), asked(case[1])[0], n, 1.0, 2.0, -4, 11).tolist() for _ in range(2))
            if a != b or [len(x) for x in a] != [n + 1] * len(IDS) or [x[0] for x in a] != list(IDS):
                t.violation(key(case) + ":seed", "%s: the same seed gives %r and %r, length %d" % (text, a, b, n), case)


def long_walk(t, g, ref, case, text):
    nbs = neighbours(ref, [0], None)
    for n, p, q in ((3, F(1), F(2)), (3, F(2), F(1, 2)), (4, F(1), F(2))):
        want, cells = walks(nbs, 3, n, p, q, -4)
        if math.prod(cells) > MOST:
            t.count("left out")
        elif not one(t, lambda: g.random_walk([3], [0], n, float(p), float(q), -4, 5), [want], 0, cells + [1], True,
                     "%s: walk of %d from 3, p=%s q=%s" % (text, n, p, q), case):
            return


def one(t, ask, want, order, grid, exact, text, case):
    got = {}
    for r in E.explore(lambda: [tuple(x) for x in ask().tolist()], E.RANDOM | order, t, grid=grid):
        bad = None
        if r.error is not None:
            bad = "%s: %s" % (type(r.error).__name__, str(r.error)[:200])
        elif len(r.result) != len(want):
            bad = "%d walks" % len(r.result)
        else:
            for w, x in zip(r.result, want):
                if w not in x:
                    bad = "%r is not a walk of the graph" % (w,)
        if bad:
            t.violation(key(case) + ":walk", "%s, draws %r: %s" % (text, r.script, bad), case)
            return False
        t.state(case, text, tuple(r.result))
        o = tuple(c for k, _, c, _ in r.trace if k == E.ORDER)
        x = got.setdefault(o, {})
        x[r.result[0]] = x.get(r.result[0], 0.0) + r.prob
    for o, x in got.items() if exact else ():
        if any(abs(x.get(w, 0.0) - float(pr)) > 1e-6 for w, pr in want[0].items()):
            t.violation(key(case) + ":probability", "%s, replies in order %r: %s, should be %s" % (
                text, o, {w: round(v, 4) for w, v in sorted(x.items())}, {w: str(v) for w, v in sorted(want[0].items())}), case)
            return False
    return True


def pagerank(t, g, ref, case, text):
    for types in asked(case[1]):
        for ts in ((0, 0), (4, 4), (5, 9), (9, 4)) if case[3] else ((None, None),):
            for alpha, eps in ((0.5, 1e-4), (0.2, 1e-4), (0.5, 0.05)):
                for nodes in ([IDS[0]], [IDS[1], IDS[0]], [IDS[2], IDS[2]], [99, IDS[0]]):
                    want = [rank(neighbours(ref, types, ts[i]), x, alpha) for i, x in enumerate(nodes)]
                    slack = eps * max(1, len(case[1])) + 1e-5
                    for count in (1, 4):
                        t.evals += 1
                        where = "%s: PageRank of %r over %r at %r, alpha %s eps %s, %d asked for" % (text, nodes, types, ts, alpha, eps, count)
                        try:
                            ns, ws = g.ppr_neighbors(nodes, types, count, alpha, eps, -4, -2.0, None if ts[0] is None else list(ts[:len(nodes)]))
                        except Exception as e:
                            t.violation(key(case) + ":rank", "%s: %s: %s" % (where, type(e).__name__, str(e)[:200]), case)
                            return
                        t.state(case, where, ns.tobytes(), ws.tobytes())
                        for i in range(len(nodes)):
                            bad = wrong(list(zip(ns[i].tolist(), ws[i].tolist())), want[i], count, slack)
                            if bad:
                                t.violation(key(case) + ":rank", "%s: %r for %d, %s; should be %s" % (
                                    where, list(zip(ns[i].tolist(), ws[i].tolist())), nodes[i], bad, {k: round(v, 5) for k, v in want[i].items() if v}), case)
                                return


def wrong(rows, want, count, slack):
    got = {}
    for x, w in rows:
        if x == -4:
            if w != -2.0:
                return "a default with weight %r" % w
            continue
        if x in got:
            return "%d repeated" % x
        got[x] = w
    for x, w in got.items():
        if not want.get(x):
            return "%d cannot be reached" % x
        if not want[x] - slack <= w <= want[x] + 1e-5:
            return "weight %r of %d" % (w, x)
    for x, w in want.items():
        if x not in got and w > slack and (len(got) < count or w - slack > min(got.values()) + 1e-5):
            return "%d is missing" % x
    return None


E.main(check, run, cases(), crash_key=lambda c: "crash:" + c[0] + ":" + key(c))
