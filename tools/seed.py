"""Development helper: make and try a planted bug (not used by any check).

seed.py make ID PROPERTY SPEC.py   SPEC.py defines FILE, OLD, NEW (or EDITS), NEEDS, BREAKS, DEMO
seed.py try ID                     scratch copy: builds, stable tests, demo flips
seed.py check ID                   apply to /repo, run the check of the property, revert
"""
import json
import os
import shutil
import subprocess
import sys

VERIF = os.environ.get("SEED_VERIF", "/verif")
REPO = os.environ.get("VP_REPO", "/repo")
SEEDED = VERIF + "/seeded"
IGN = " ".join("--ignore=deepgnn/graph_engine/" + x for x in (
    "backends/snark/test_snark_client.py", "data/test_graph_dataset.py", "snark/tests/downloader_test.py",
    "snark/tests/e2e_test.py", "snark/tests/hdfs_test.py", "snark/tests/neighbor_sampler_test.py",
    "snark/tests/ppr_benchmark_test.py", "snark/tests/random_walk_test.py", "snark/tests/sparse_features_test.py",
    "snark/tests/temporal_test.py"))


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def make(ident, prop, spec):
    ns = {}
    exec(open(spec).read(), ns)
    edits = ns.get("EDITS") or [(ns["FILE"], ns["OLD"], ns["NEW"])]
    d = os.path.join(SEEDED, ident)
    os.makedirs(d, exist_ok=True)
    old = {}
    try:
        for f, a, b in edits:
            p = os.path.join(REPO, f)
            s = open(p).read()
            old.setdefault(p, s)
            assert s.count(a) == 1, (f, s.count(a), a)
            open(p, "w").write(s.replace(a, b))
        diff = sh("git -C %s diff" % REPO).stdout
    finally:
        for p, s in old.items():
            open(p, "w").write(s)
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    if ns.get("KIT"):
        kit(d)
    open(os.path.join(d, "demo.py"), "w").write(ns["DEMO"].lstrip("\n"))
    open(os.path.join(d, "demo.sh"), "w").write(
        "#!/bin/bash\n# Run in the repository root; exit 0 when the behaviour is right.\n"
        "here=$(cd \"$(dirname \"$0\")\" && pwd)\n"
        "PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=$PWD/src/python exec timeout 250 /opt/venv/bin/python \"$here/demo.py\"\n")
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    json.dump({"property": prop, "needs": ns["NEEDS"], "what_it_breaks": ns["BREAKS"]},
              open(os.path.join(d, "meta.json"), "w"), indent=1)
    print(diff)


def kit(d):
    """What a demonstration needs to build the native library: a copy of the transport stand-in."""
    shutil.rmtree(os.path.join(d, "native"), ignore_errors=True)
    shutil.copytree(os.path.join(VERIF, "lib", "native"), os.path.join(d, "native"))
    text = open(os.path.join(VERIF, "lib", "nativelib.py")).read()
    text = text[:text.index("def activate()")].replace("import harness as H\n", "import atexit\nimport tempfile\n\n\nclass H:\n"
                                                       "    REPO = os.getcwd()\n    VERIF = tempfile.mkdtemp()\n\n\n"
                                                       "atexit.register(shutil.rmtree, H.VERIF, True)\n")
    text += '''def start():
    """Build the library and let the client find it."""
    os.environ["SNARK_LIB_PATH"] = build(asan=False, control=False)
'''
    open(os.path.join(d, "nb.py"), "w").write(text)


def attempt(ident):
    d = os.path.join(SEEDED, ident)
    w = "/tmp/seedwork_" + ident
    shutil.rmtree(w, ignore_errors=True)
    sh("git clone -q %s %s" % (REPO, w))
    a = sh("bash %s/demo.sh" % d, cwd=w)
    r = sh("git apply %s/patch.diff" % d, cwd=w)
    if r.returncode:
        print("patch does not apply", r.stderr)
    b = sh("bash %s/demo.sh" % d, cwd=w)
    print("%s demo: unchanged %d, patched %d" % (ident, a.returncode, b.returncode))
    if a.returncode or not b.returncode:
        print(a.stdout[-500:], a.stderr[-1500:], b.stdout[-500:])
    t = sh("PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONPATH=%s/src/python:%s/src/python/deepgnn/graph_engine/snark/tests "
           "/opt/venv/bin/python -m pytest -q -p no:cacheprovider -p no:benchmark --import-mode=importlib --timeout=120 "
           "--continue-on-collection-errors %s deepgnn/graph_engine 2>&1 | tail -12" % (w, w, IGN), cwd=w + "/src/python")
    print([x for x in t.stdout.splitlines() if "passed" in x])
    shutil.rmtree(w, ignore_errors=True)


def check(ident, props=None):
    d = os.path.join(SEEDED, ident)
    meta = json.load(open(os.path.join(d, "meta.json")))
    assert not sh("git -C %s status --porcelain" % REPO).stdout.strip()
    assert sh("git -C %s apply %s/patch.diff" % (REPO, d)).returncode == 0
    try:
        for prop in props or [meta["property"]]:
            r = sh("/opt/venv/bin/python checks/%s.py" % prop, cwd=VERIF)
            print("%s with %s: exit %d" % (ident, prop, r.returncode), r.stdout[-700:], r.stderr[-300:])
    finally:
        sh("git -C %s checkout -- ." % REPO)


if __name__ == "__main__":
    if sys.argv[1] == "make":
        make(*sys.argv[2:5])
    elif sys.argv[1] == "try":
        for i in sys.argv[2:]:
            attempt(i)
    else:
        check(sys.argv[2], sys.argv[3:])
