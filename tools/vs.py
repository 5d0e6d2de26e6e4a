"""Summarise the violations of the last failing run of a check."""
import json, sys, os
d = json.load(open(os.path.join(os.path.dirname(__file__), "..", "replays", sys.argv[1] + ".json")))
n = int(sys.argv[2]) if len(sys.argv) > 2 else 1
c = {}
for v in d["all"]:
    c.setdefault(v["key"].split(" | ")[-1], []).append(v)
for k, vs in c.items():
    print(f"{len(vs)} x {k}")
    for v in vs[:n]:
        print("     ", v["label"][:300], "##", v["detail"][:400])
