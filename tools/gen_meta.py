#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props/*.py."""
import glob, json, os, runpy
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = []
for f in sorted(glob.glob(os.path.join(H, "tools/props/*.py"))):
    props += runpy.run_path(f)["PROPS"]
out, checks, na = [], [], []
for p in props:
    for k in ("id", "title", "statement", "over", "q", "why", "files", "mech"):
        assert k in p, (p.get("id"), k)
    assert len(p["title"]) <= 80, p["id"]
    for f in p["files"]:
        assert os.path.exists("/repo/" + f), f
    a = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}
    if "state" in p:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in p["state"]]
    a["observe_at"] = p.get("observe", [])
    a["hook_needed"] = p.get("hook")
    out.append({"id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["q"]},
                "why_tests_cant": p["why"], "anchors": a})
    if "na" in p:
        na.append({"property": p["id"], "reason": p["na"]})
        continue
    checks.append({"property": p["id"],
                   "quick_cmd": "./check %s" % p["id"],
                   "thorough_cmd": "./check %s" % p["id"],
                   "evidence_file": "evidence/%s.json" % p["id"],
                   "technique": p.get("technique", "runtime monitor with reference-model oracle"),
                   "level": "exploration",
                   "level_note": p["note"]})
with open(os.path.join(H, "properties.jsonl"), "w") as f:
    for o in out:
        f.write(json.dumps(o, ensure_ascii=False) + "\n")
hooks = []
hf = os.path.join(H, "tools/hooks.json")
m = {"version": 1, "setup_cmd": "./setup.sh",
     "hooks": json.load(open(hf)),
     "checks": checks, "not_applicable": na,
     "notes": "Every check builds its harness crate under ws/h against the sources in /repo (manifests in ws/jf point at /repo/<crate>/src) and stand-ins under ws/shims for dependencies that are not installed. Build output stays in ws/target*, which is ignored."}
with open(os.path.join(H, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1, ensure_ascii=False)
    f.write("\n")
print(len(out), "properties", len(checks), "checks")
