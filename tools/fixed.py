#!/usr/bin/env python3
"""Refreshes the "fixed" list of known_findings.json from the fix: commits in /repo."""
import json, subprocess, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
path = os.path.join(ROOT, "known_findings.json")
PROPERTY = json.load(open(os.path.join(ROOT, "tools", "fix_properties.json")))
try:
    data = json.load(open(path))
except FileNotFoundError:
    data = dict(findings=[])
log = subprocess.check_output(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s", "942f358..HEAD"], text=True)
data["fixed"] = []
for line in log.splitlines():
    commit, subject = line.split(" ", 1)
    assert subject.startswith("fix: "), line
    what = subject[5:]
    assert what in PROPERTY, f"which property? {what}"
    data["fixed"].append(f"fixed: property={PROPERTY[what]} {commit} {what}")
json.dump(data, open(path, "w"), indent=1)
