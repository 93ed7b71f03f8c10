"""D01: the text reader delivers every line exactly once and in order."""
import json
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import sched  # noqa: E402
sched.install(mp=False)
import harness as H  # noqa: E402
import textlib as L  # noqa: E402
import vpfs  # noqa: E402,F401

check = H.Check("D01", rule="one evaluation = one complete read of a file set under one schedule; distinct = different "
                "(content, configuration, lines) or (schedule) outcomes",
                assumptions=["blank lines carry no data and are ignored on both sides",
                             "a trailing carriage return belongs to the line break"])

SCHED = [
    # (name, files, config, bound, mode)
    ("one", [(0, 3, 1, 3, 2, 3)], dict(blk=3, th=2, b=2, q=1), 1, "delay"),
    ("small", [(0, 3, 1)], dict(blk=20, th=2, b=1, q=1), 2, "delay"),
    ("threads3", [(0, 3, 1, 3, 2, 3)], dict(blk=6, th=3, b=1, q=1), 1, "delay"),
    ("two", [(0, 3, 1), (1, 3, 0)], dict(blk=3, th=2, b=3, q=1, ep=1), 1, "delay"),
    ("epochs", [(0, 3, 1)], dict(blk=4, th=2, b=2, q=2, ep=2), 1, "delay"),
    ("preempt", [(0, 3, 1)], dict(blk=20, th=2, b=1, q=1), 1, "preempt"),
]


def judge_for(name, files, c, want):
    def judge(e, t, script):
        rep = ["sched", name, script]
        if e.outcome or e.error is not None:
            t.violation("sched:" + (e.outcome or "error"), "schedule of %s: %s %r %r" % (
                name, e.outcome, e.error, e.blocked_info), rep)
            return
        t.state(name, str(e.result), e.switches)
        L.check_batches(e.result, c, want, t, "sched", "schedule of %s" % name, rep)
    return judge


def main():
    H.quiet_logging()
    import deepgnn.graph_engine._adl_reader  # noqa: F401
    H.scratch()
    if len(sys.argv) > 2 and sys.argv[1] == "--replay":
        d = json.load(open(sys.argv[2]))["replay"]
        t = H.Tally()
        if d[0] == "sched":
            for name, files, c, bound, mode in SCHED:
                if name == d[1]:
                    want = [x for f in files for x in L.expect(L.data_of(f))] * c.get("ep", 1)
                    e = sched.Execution(d[2], bound, mode).run(L.sched_make(None, c, files)())
                    judge_for(name, files, c, want)(e, t, d[2])
        else:
            d = L.tuplify(d)
            {2: L.judge_content if not d or not isinstance(d[1][0][0], str) else L.judge_files,
             5: L.judge_split}[len(d)](d, t)
        print(t.violations)
        H.cleanup()
        sys.exit(1 if t.violations else 0)
    H.run_cases(check, L.judge_content, L.content_cases(), case_timeout=100)
    H.run_cases(check, L.judge_files, L.file_cases(), case_timeout=100)
    H.run_cases(check, L.judge_files, L.larger_cases(), case_timeout=100)
    H.run_cases(check, L.judge_split, L.split_cases(), case_timeout=100)
    for name, files, c, bound, mode in SCHED:
        want = [x for f in files for x in L.expect(L.data_of(f))] * c.get("ep", 1)
        n0 = check.tally.evals
        H.explore_parallel(check, name, L.sched_make(None, c, files), judge_for(name, files, c, want),
                           bound + (1 if H.THOROUGH else 0), mode)
        check.notes["schedules_" + name] = check.tally.evals - n0
    check.finish()


if __name__ == "__main__":
    main()
