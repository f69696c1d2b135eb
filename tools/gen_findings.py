#!/usr/bin/env python3
"""Writes known-findings.json: one "fixed:" entry per fix commit in /repo (its property is that of
the header it repairs); the known (unrepaired) findings are kept as they are."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BY_SUBJECT = {"packaged": "P02", "PackagedTask": "P02", "long chains": "P05", "in Concat": "P20"}
BY_FILE = {}
for l in open(V + "/properties.jsonl"):
    d = json.loads(l)
    for f in d["anchors"]["files"]:
        BY_FILE.setdefault(os.path.basename(f), d["id"])
BY_FILE.update({"uint128_t.h": "P28", "uint_t.h": "P27", "ReversedRange.h": "P30", "Size.h": "P30", "IsSwappable.h": "P38", "Range.h": "P30"})
base = subprocess.check_output(["git", "-C", REPO, "log", "--reverse", "--format=%h", "--grep=^base"], text=True).split()[0]
fixed = []
for h in subprocess.check_output(["git", "-C", REPO, "log", "--reverse", "--format=%h", base + "..HEAD"], text=True).split():
    subject = subprocess.check_output(["git", "-C", REPO, "log", "-1", "--format=%s", h], text=True).strip()
    body = " ".join(subprocess.check_output(["git", "-C", REPO, "log", "-1", "--format=%b", h], text=True).split())
    files = [os.path.basename(f) for f in subprocess.check_output(["git", "-C", REPO, "show", "--format=", "--name-only", h], text=True).split()]
    if not subject.startswith("fix: "):
        continue
    p = next((v for k, v in BY_SUBJECT.items() if k in subject), None) or next((BY_FILE[f] for f in files if f in BY_FILE), None)
    assert p, (h, subject, files)
    fixed.append("fixed: property=%s %s %s" % (p, h, subject[5:] + (" -- " + body if body else "")))
path = V + "/known-findings.json"
old = json.load(open(path)) if os.path.exists(path) else {"known": []}
json.dump({"known": old["known"], "fixed": fixed}, open(path, "w"), indent=1)
open(path, "a").write("\n")
