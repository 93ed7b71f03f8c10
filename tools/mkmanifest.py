"""Writes MANIFEST.json from the checks that exist."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
TECH = {
    "C01": ("exhaustive enumeration of small graphs through the real converter", "real code, independent binary reader as oracle"),
    "C02": ("exhaustive enumeration of records in every text form", "real decoders and converter against a reference model"),
    "C03": ("exhaustive enumeration of partition and worker splits", "real converter and metadata merger"),
    "C04": ("exhaustive enumeration of weight vectors", "real alias tables, exact probability mass from the file"),
    "C05": ("exhaustive schedules of dispatcher and workers up to a bound", "real dispatcher and converter code under a controlled scheduler"),
    "C06": ("exhaustive crash points of the conversion", "real converter over a recording file system"),
    "C07": ("exhaustive enumeration of temporal records", "real decoders and converter against a reference model"),
    "E01": ("exhaustive small graphs from text through conversion, download and servers to answers", "real converter and query engine built from the working tree against the text"),
    "E02": ("exhaustive small data sets over converted graphs, all draws of graph samplers", "real data sets, samplers and query engine built from the working tree against the text"),
    "D01": ("exhaustive contents, configurations and reader schedules", "real reader under a controlled scheduler, virtual time"),
    "D02": ("exhaustive restart/abandon histories, failures and schedules", "real reader under a controlled scheduler with an in-memory file system"),
    "D03": ("exhaustive configurations, failures and schedules of prefetching", "real prefetcher under a controlled scheduler"),
    "D04": ("exhaustive enumeration of sampler configurations", "real samplers against a reference split"),
    "D05": ("exhaustive enumeration of sampler histories", "real samplers against a fresh instance"),
    "D06": ("exhaustive writes, configurations, failures and schedules of the uploader", "real uploader under a controlled scheduler over an in-memory store"),
    "S01": ("exhaustive schedules of the start/stop protocol with faults", "real synchronisation code under a controlled scheduler"),
    "S02": ("exhaustive enumeration of cluster layouts", "real layout code against a reference model"),
    "S03": ("exhaustive subsets of partitions and transfer failures", "real downloader over a controlled file system"),
    "G01": ("exhaustive engine answers", "real multi-hop code against a recorded oracle"),
    "G02": ("exhaustive small graphs, walks and windows", "real builders against their definitions"),
    "G03": ("exhaustive random draws on small graphs", "real sampler and statistics with enumerated draws"),
    "G04": ("exhaustive small raw files and options of the data sets", "real data set builders and converter, independent binary reader as oracle"),
    "T01": ("exhaustive kills and restarts of training, options and ranks", "real trainers on a stand-in for torch that keeps the history of updates"),
    "T02": ("exhaustive schedules of training jobs over leftover files, options and workers", "real trainers on a stand-in for tensorflow that keeps the history of updates"),
    "Q01": ("exhaustive small graphs and queries", "real query engine built from the working tree against a reference model"),
    "Q02": ("exhaustive shard layouts and reply orders", "real distributed client and servers over a controlled transport"),
    "Q03": ("exhaustive temporal graphs and query times", "real query engine against the snapshot definition"),
    "Q04": ("exhaustive random draws of neighbour sampling", "real sampling code with enumerated draws"),
    "Q05": ("exact outcome probabilities by enumeration of draws", "real sampling code with enumerated draws"),
    "Q06": ("exhaustive random draws of node and edge samplers", "real samplers with enumerated draws"),
    "Q07": ("exhaustive random draws of walks", "real walk and PPR code with enumerated draws"),
    "Q08": ("exhaustive reply failures and orders", "real distributed client over a controlled transport"),
}
checks = []
for p in sorted(TECH):
    if os.path.exists(os.path.join(V, "checks", p + ".py")):
        checks.append({"property": p, "quick_cmd": "%s checks/%s.py" % (PY, p), "thorough_cmd": "%s checks/%s.py" % (PY, p),
                       "evidence_file": "evidence/%s.json" % p, "technique": TECH[p][0], "level": "model_checking",
                       "level_note": TECH[p][1] + "; every case within the stated bounds is executed, nothing is sampled"})
m = {"version": 1, "setup_cmd": "%s -c \"import sys; sys.path.insert(0, 'lib'); import sched, harness\"" % PY, "checks": checks}
if os.path.exists(os.path.join(V, "tools", "not_applicable.json")):
    m["not_applicable"] = json.load(open(os.path.join(V, "tools", "not_applicable.json")))
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
