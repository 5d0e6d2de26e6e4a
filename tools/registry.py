"""Single source of truth: the properties and how each is claimed.

`python3 tools/registry.py` rewrites properties.jsonl and MANIFEST.json from this file.
"""
import json, os, sys

P = []          # properties
CLAIMED = {}    # id -> dict(technique, level, level_note)
NOT_APPLICABLE = {}  # id -> reason


def prop(id, title, statement, over, text, why, files, mechanism, state=None, observe=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    anchors = {"files": files,
               "mechanism": [{"name": n, "where": w} for n, w in mechanism]}
    if state:
        anchors["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        anchors["observe_at"] = observe
    anchors["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": anchors})


def claim(id, technique, level, note):
    CLAIMED[id] = dict(technique=technique, level=level, note=note)


PI = "pairinteraction/"

exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "properties_src.py")).read())


def main():
    root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(root, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(p, ensure_ascii=False) + "\n")
    hooks = {"guard": "none", "enable": "no hooks are needed: the harnesses in /verif compile /repo's "
             "sources unchanged and intercept library calls at link time", "source_commits": []}
    checks = []
    na = []
    for p in P:
        i = p["id"]
        if i in CLAIMED:
            c = CLAIMED[i]
            checks.append({"property": i,
                           "quick_cmd": f"python3 run.py {i} --tier quick",
                           "thorough_cmd": f"python3 run.py {i} --tier thorough",
                           "evidence_file": f"evidence/{i}.json",
                           "technique": c["technique"], "level": c["level"], "level_note": c["note"]})
        else:
            na.append({"property": i, "reason": NOT_APPLICABLE.get(i, "check not built yet")})
    m = {"version": 1, "setup_cmd": "python3 run.py --setup", "hooks": hooks,
         "checks": checks, "not_applicable": na}
    with open(os.path.join(root, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1, ensure_ascii=False)
        f.write("\n")


if __name__ == "__main__":
    main()
