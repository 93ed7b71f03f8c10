"""D04: samplers split data over workers and replicas without loss or overlap."""
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import harness as H  # noqa: E402
import samplerlib as L  # noqa: E402

check = H.Check("D04", rule="one evaluation = all batches of all workers and replicas of one configuration; "
                "distinct = different (configuration class, batches) outcomes",
                assumptions=["replicas that shuffle share the random state, as the loader does for its workers"])


def run(case, t):
    L.judge_split(case, t)


if __name__ == "__main__":
    if len(sys.argv) > 2 and sys.argv[1] == "--replay":
        L.replay(sys.argv[2], L.judge_split)
    H.quiet_logging()
    L.prepare(H.scratch())
    H.run_cases(check, run, L.split_cases(), case_timeout=60)
    check.finish()
