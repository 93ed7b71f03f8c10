"""Q04: sampled neighbours are always real neighbours, or the documented default."""
import itertools
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import harness as H  # noqa: E402
import enginelib as E  # noqa: E402
import querylib as Q  # noqa: E402

check = H.Check("Q04", rule="one evaluation = one sampling request with one outcome of all its random draws (and one order of "
                "replies); distinct = different (request, answer)",
                assumptions=["random draws from a continuous range are taken at the middle of equal cells, at least as fine as the weights",
                             "uniform sampling reports no weights"])

ALPHABET = [(d, tp) for d in (1, 2) for tp in (0, 1, 3)]
WEIGHTS = {1: [(1.0,), (0.0,)], 2: [(1.0, 2.0), (2.0, 0.0), (0.0, 1.0)], 3: [(1.0, 2.0, 1.0), (0.0, 2.0, 1.0)]}


def cases():
    out = []
    n = 0
    for k in (0, 1, 2, 3):
        for es in itertools.combinations_with_replacement(ALPHABET, k):
            for w in WEIGHTS.get(k, [()]):
                for where in itertools.product(range(min(k, 3) or 1), repeat=k):
                    parts = max(where, default=0) + 1
                    if len(set(where)) != parts and k > 1:
                        continue
                    n += 1
                    if k == 3 and not H.THOROUGH and (n % 7 or len(set(es)) < 2):
                        continue
                    edges = tuple((d, tp, x) for (d, tp), x in zip(es, w))
                    out.append((edges, where, parts, None))
                    if n % 4 == 0 or k < 2:
                        out.append((edges, where, parts, "client"))
                    if k < 3 or n % 2 or H.THOROUGH:
                        for g in {1: [((0,),), ((), (0,))], 2: [((0,), (1,)), ((1, 0), ())], 3: [((0,), (1,), (2,)), ((2, 0), (1,))]}[parts]:
                            out.append((edges, where, parts, g))
    return out


def requests(edges):
    types = sorted({e[1] for e in edges})
    tsets = [[0, 1, 3]] + [[t] for t in types[:2]] + ([[0, 3]] if len(types) > 1 else [[1, 2]])
    out = []
    for kind in ("weighted", "uniform", "distinct"):
        for c in (1, 2, 3):
            out += [Q.Sample(kind, [1], ts, c) for ts in (tsets if c < 3 else tsets[:1])]
        out += [Q.Sample(kind, [2, 1, 9], tsets[0], 1), Q.Sample(kind, [1, 9, 1], tsets[0], 1), Q.Sample(kind, [9], tsets[0], 2)]
    return out


class Client:
    """The Graph interface of the package with the calls of the native client."""

    def __init__(self, c, np):
        self.c, self.np = c, np

    def weighted_sample_neighbors(self, ids, types, count, default_node, default_weight, default_edge_type, seed):
        return self.c.sample_neighbors(ids, self.np.array(types), count, "byweight", default_node, default_weight, default_edge_type)[:3]

    def uniform_sample_neighbors(self, distinct, ids, types, count, default_node, default_type, seed):
        r = self.c.sample_neighbors(ids, self.np.array(types), count, "randomwithoutreplacement" if distinct else "random",
                                    default_node, 0.5, default_type)
        return r[0], r[2]


def run(case, t):
    edges, where, parts, groups = case
    lay = Q.spread([(1, 0, 1.0, ()), (2, 1, 1.0, ())], [(1, e + ((),)) for e in edges] + [(2, (1, 3, 1.0, ()))],
                   where + (0,), parts, (0, parts - 1))
    t.sample({"layout": repr(lay)[:300], "servers": repr(groups)})
    d = E.folder(E.files(lay))
    ref = E.Ref(lay)
    if groups is None:
        c = E.Local(d, [(d, p) for p in range(parts)])
        g = c.g
    elif groups == "client":
        x = E.mods()[2].Client(d, list(range(parts)))
        c = g = Client(x, E.np)
    else:
        c = E.Cluster(d, groups)
        g = c.g
    cluster = isinstance(groups, tuple)
    Q.compare_samples(t, g, ref, requests(edges), "%r on %r" % (lay, groups), case,
                      "" if groups is None else "client:" if not cluster else "cluster:",
                      flags=E.ORDER if cluster else 0, small=2000 if H.THOROUGH else 60, large=20000 if H.THOROUGH else 250)
    (c.c.reset if groups == "client" else c.close)()
    E.remove(d)


E.main(check, run, cases(), crash_key=lambda c: "crash:%s" % ("local" if c[3] is None else "cluster"))
