"""Enumeration and reference model for the text reader."""
import fnmatch
import itertools
import json
import random
import sys

import harness as H
import sched
import vpfs

TOK = ["a", "bc", "é", "\n", "\r\n", " "]


def expect(data):
    """Non-empty lines of one file."""
    out = []
    for x in data.split(b"\n"):
        x = x.decode("utf-8")
        if x.endswith("\r"):
            x = x[:-1]
        if x:
            out.append(x)
    return out


CONFIG = "<configuration>%s</configuration>" % "".join("<property><name>fs.adl.oauth2.%s</name><value>%s</value></property>" % x for x in (
    ("client.id", "me"), ("credential", "secret"), ("refresh.url", "https://login/01234567-89ab-1cde-8f01-23456789abcd/oauth2/token")))


def token(tenant_id, client_secret, client_id):
    return tenant_id, client_secret, client_id


class Lake:
    """Stand-in of the data lake client over the files in memory"""

    def __init__(self, token, store_name):
        if (token, store_name) != (("01234567-89ab-1cde-8f01-23456789abcd", "secret", "me"), "store"):
            raise PermissionError("signed in with %r to %r" % (token, store_name))

    def glob(self, path):
        return sorted((f for f in vpfs.VpFS.files if fnmatch.fnmatch(f, path)), reverse=True)

    def read_block(self, fn, offset, length, delimiter=None):
        return vpfs.VpFS.files[fn][offset:offset + length]


def reader(files, c, split=None):
    from deepgnn.graph_engine import _adl_reader as A
    vpfs.reset({"/d/f%02d" % i: f for i, f in enumerate(files)})
    kw = dict(batch_size=c["b"], read_block_in_M=(c["blk"] + 0.5) / 1000000, buffer_queue_size=c.get("q", 3),
              thread_count=c["th"])
    if c.get("sh"):
        # the outcome of a shuffle is a rotation chosen by the case
        def shuffle(x, *a):
            k = (c["sh"] - 1) % max(1, len(x))
            x[:] = x[k:] + x[:k]
        kw["shuffle"] = True
        random.seed(1)
        random.shuffle = shuffle
    if c.get("adl"):
        kw.update(store_name="store", adl_config=CONFIG)
        A.core.AzureDLFileSystem, A.lib.auth = Lake, token
    return A.TextFileIterator(("/d/*" if c.get("adl") else "vpfs://d") if len(files) > 1 else ("/" if c.get("adl") else "vpfs://") + "d/f00", epochs=c.get("ep", 1),
                              worker_index=c.get("w", 0), num_workers=c.get("W", 1), drop_last=c.get("dl", False), **kw)


def lines_of(batches):
    return [x for b in batches for x in b if x != ""]


def check_batches(batches, c, want, t, key, what, case):
    got = lines_of(batches)
    for i, b in enumerate(batches):
        if len(b) > c["b"] or len(b) == 0 or (i < len(batches) - 1 and len(b) != c["b"]):
            t.violation(key + ":batch", "%s: batch sizes %r instead of %d" % (what, [len(x) for x in batches], c["b"]), case)
            return False
    if c.get("sh"):
        # the order of files is open: each worker must give its lines as a multiset
        ok = not set(got) - set(want) and sorted(got) == sorted(want) if not c.get("dl") else len(want) - len(got) < c["b"]
    elif c.get("dl"):
        ok = got == want[:len(got)] and len(want) - len(got) < c["b"] and all(len(b) == c["b"] for b in batches)
    else:
        ok = got == want
    if not ok:
        t.violation(key, "%s: lines %r instead of %r" % (what, got, want), case)
        return False
    return True


def contents(maxlen):
    for n in range(0, maxlen + 1):
        for toks in itertools.product(range(len(TOK)), repeat=n):
            yield toks


def data_of(toks):
    return "".join(TOK[i] for i in toks).encode("utf-8")


def run_all(it):
    out = []
    for x in it:
        out.append(list(x))
        if len(out) > 2000:
            raise AssertionError("does not end")
    return out


def judge_content(case, t):
    toks, confs = case
    data = data_of(toks)
    want = expect(data)
    for conf in confs:
        c = dict(conf)
        e = sched.Execution(max_steps=50000)

        def main():
            r = reader([data], c)
            return run_all(r)
        e.run(main)
        t.evals += 1
        t.trans += e.steps
        what = "content %r with %r" % (data, c)
        if e.outcome or e.error is not None:
            t.violation("content:fail", "%s: %s %r %r" % (what, e.outcome, e.error, e.blocked_info), [toks, [conf]])
            return
        if not check_batches(e.result, c, want * c.get("ep", 1), t, "content", what, [toks, [conf]]):
            return
    t.state(data, str(want))
    t.sample({"content": repr(data), "lines": want, "configurations": len(confs)})


def judge_files(case, t):
    """Several files, workers, epochs."""
    names, conf = case
    c = dict(conf)
    files = [data_of(x) for x in names]
    allgot = []
    for w in range(c["W"]):
        cw = dict(c, w=w)
        e = sched.Execution(max_steps=80000)
        e.run(lambda: run_all(reader(files, cw)))
        t.evals += 1
        t.trans += e.steps
        what = "files %r with %r" % (files, cw)
        if e.outcome or e.error is not None:
            t.violation("files:fail", "%s: %s %r %r" % (what, e.outcome, e.error, e.blocked_info), case)
            return
        want = [x for i in range(w, len(files), c["W"]) for x in expect(files[i])] * c["ep"]
        if not check_batches(e.result, cw, want, t, "files", what, case):
            return
        allgot += lines_of(e.result)
    if not c["dl"]:
        allwant = [x for f in files for x in expect(f)] * c["ep"]
        if sorted(allgot) != sorted(allwant):
            t.violation("files:cover", "all workers: %r instead of %r (%r)" % (allgot, allwant, c), case)
    t.state(names, conf, str(allgot))
    t.sample({"files": [repr(f) for f in files], "config": c, "lines": allgot})


def judge_split(case, t):
    """Byte ranges of one file read by several split iterators."""
    from deepgnn.graph_engine import _adl_reader as A
    import os
    toks, cuts, blk, th, b = case
    data = data_of(toks)
    p = os.path.join(H.scratch(), "split_%d" % os.getpid())
    with open(p, "wb") as f:
        f.write(data)
    bounds = [0] + list(cuts) + [len(data)]
    for lo, hi in zip(bounds, bounds[1:]):
        for last in ((hi - lo,) if hi != len(data) else (hi - lo, -1)):
            try:
                want = expect(data[lo:hi])
            except UnicodeDecodeError:
                continue

            def main():
                r = A.TextFileSplitIterator(p, None, batch_size=b, read_block_in_M=(blk + 0.5) / 1000000,
                                            buffer_queue_size=2, thread_count=th, worker_offset=lo,
                                            total_read_length=last)
                return run_all(r), run_all(r)
            e = sched.Execution(max_steps=80000)
            e.run(main)
            t.evals += 1
            t.trans += e.steps
            what = "bytes %d..%d of %r block %d threads %d" % (lo, hi, data, blk, th)
            if e.outcome or e.error is not None:
                t.violation("split:fail", "%s: %s %r %r" % (what, e.outcome, e.error, e.blocked_info), case)
                return
            for k, res in enumerate(e.result):
                if not check_batches(res, {"b": b}, want, t, "split" if k == 0 else "split:again",
                                     what + (" second pass" if k else ""), case):
                    return
            t.state(data, lo, hi, str(want))


def content_cases():
    confs = []
    for blk in (1, 2, 3, 4, 5, 7):
        for th in (1, 2, 3):
            for b in (1, 2):
                if (blk + th + b) % 2 == 0 or H.THOROUGH or (blk in (3, 5)):
                    confs.append(tuple(sorted(dict(blk=blk, th=th, b=b, q=1 + blk % 2).items())))
    for toks in contents(5 if H.THOROUGH else 4):
        yield (toks, tuple(confs))
    # longer contents of a smaller alphabet
    small = (0, 3, 2)
    few = [tuple(sorted(dict(blk=blk, th=th, b=2, q=2).items())) for blk, th in ((1, 1), (2, 2), (3, 2), (4, 3), (5, 1))]
    for n in (5, 6) if not H.THOROUGH else (6, 7, 8):
        for toks in itertools.product(small, repeat=n):
            yield (toks, tuple(few))


def file_cases():
    pool = [(), (0,), (0, 3), (0, 3, 1), (3,), (0, 3, 1, 3), (2, 3, 0)]
    for k in (1, 2, 3):
        for names in itertools.product(pool, repeat=k):
            if k == 3 and not H.THOROUGH and names[0] not in pool[:4]:
                continue
            for W in range(1, k + 1):
                for ep in (1, 2):
                    for dl in (False, True):
                        for b in (1, 2, 3):
                            for blk in (2, 50):
                                if k == 3 and (b == 2 or (dl and ep == 1)) and not H.THOROUGH:
                                    continue
                                yield (names, tuple(sorted(dict(W=W, ep=ep, dl=dl, b=b, blk=blk, th=2, q=1).items())))


def numbered(n, pad):
    """n different lines as tokens; pad adds a number of symbols to every third line"""
    out = []
    for i in range(n):
        out += [int(x) for x in bin(i + 1)[2:]] + [2] * (pad if i % 3 == 1 else 0) + [3]
    return tuple(out)


def larger_cases():
    for n, pad, blk, th in itertools.product((10, 20, 33, 64, 100, 257), (0, 5, 60), (7, 16, 64, 100, 1000), (1, 2, 4, 5, 10)):
        toks = numbered(n, pad)
        if len(toks) // blk > 60 or (len(toks) // blk) * th > 150:
            continue
        for b in (3, 16, 300):
            yield ((toks if n % 2 else toks[:-1],), tuple(sorted(dict(W=1, ep=1 + (n + b) % 3, dl=b == 16 and th > 2, b=b, blk=blk, th=th, q=1 + th % 3).items())))
    for k in (4, 5, 8, 12):
        names = tuple(numbered((i * 5) % 7, i % 3)[:-1 if i % 2 else None] for i in range(k))
        for W in (1, 2, 3, 4, k):
            for ep in (1, 3):
                for sh in (0, 1, 2, k):
                    for adl in (False, True):
                        for b, dl in ((1, False), (4, True), (4, False)):
                            yield (names, tuple(sorted(dict(W=W, ep=ep, dl=dl, b=b, blk=9, th=2, q=1, sh=sh, adl=adl).items())))
    pool = [(), (0,), (0, 3), (0, 3, 1), (3,), (2, 3, 0)]
    for k in (1, 2):
        for names in itertools.product(pool, repeat=k):
            for W in range(1, k + 1):
                for adl, sh in ((True, 0), (True, 1), (True, 2), (False, 1), (False, 2)):
                    for b, blk, th in ((1, 2, 1), (2, 50, 2), (3, 3, 3)):
                        yield (names, tuple(sorted(dict(W=W, ep=2, dl=False, b=b, blk=blk, th=th, q=1, sh=sh, adl=adl).items())))


def split_cases():
    for toks in [(0, 3, 1, 3), (0, 3, 1, 3, 2), (1, 1, 3, 0), (3, 0, 3, 3, 1, 3, 0, 3)]:
        n = len(data_of(toks))
        for k in (0, 1, 2):
            for cuts in itertools.combinations(range(1, n), k):
                for blk in (1, 2, 4, 20):
                    for th in (1, 2):
                        yield (toks, cuts, blk, th, 2)


# ---- schedules ----------------------------------------------------------------
def sched_make(toks, c, files=None):
    datas = [data_of(x) for x in (files or [toks])]

    def make():
        def main():
            r = reader(datas, c)
            vpfs.VpFS.hook = _yield
            return run_all(r)
        return main
    return make


def _yield(op, path, arg):
    cur = sched._cur()
    if cur is not None and op in ("read", "open"):
        cur[0].point(cur[1])


def tuplify(x):
    return tuple(tuplify(y) for y in x) if isinstance(x, (list, tuple)) else x
