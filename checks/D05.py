"""D05: a sampler's length and repeated iteration agree with what it yields."""
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import harness as H  # noqa: E402
import samplerlib as L  # noqa: E402

check = H.Check("D05", rule="one evaluation = one history of len/iterate/partial/reset/copy on one sampler "
                "configuration; distinct = different (sampler, history, batches)")

if __name__ == "__main__":
    if len(sys.argv) > 2 and sys.argv[1] == "--replay":
        L.replay_history(sys.argv[2])
    H.quiet_logging()
    L.prepare(H.scratch())
    H.run_cases(check, L.judge_history, L.history_cases(), case_timeout=60)
    check.finish()
