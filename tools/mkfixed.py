#!/usr/bin/env python3
"""Rewrites the "fixed" entries of known_findings.jsonl from the list below and git's log."""
import json, os, subprocess
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIXED = """
2238baf C03|f88aa58 C03|0681de2 C07|d51e18f C01|859d5d2 C06|3afdd7e C06|01684fb C01|c234f93 C06|b0e53cb C03 C14|1f7d072 C01|f094207 C10|4b68680 C08|526b84d C08|4a74438 C01 C08|a109cfb C22|bbe9436 C01|f9d86ca C01|9228689 C06|46a4658 C19|846ac9c C19|fdc33a4 C16|920868b C12|8dd786e C09|a97d344 C12|c76f3bc C16|acb7288 C12|2380648 C01|c0b4a44 C04 C08|475caa9 C06 C14|25f93c3 C14|6df33fe C14|0b06e13 C14|7044207 C01 C15|504e282 C01|9cea6d9 C17|c204dcd C02 C01|f0f1674 C23|ab5b2d5 C11|dd6edc1 C23|6209a85 C23|11daf67 C01|0dfc373 C02|f3d5bc3 C01|8248732 C11|4c16dc6 C10|40aef55 C08|dc000b4 C22|da51ea8 C21|750dc37 C12|6c55be1 C04|66d74db C10|3e4e5d6 C09|cfcb143 C16|05f38a5 C11|d6af086 C16|c9a41c0 C05|d1a6bee C04|47fe8ee C11|b11dc9d C11|64e43ba C11|9b3335e C11|d06fdbc C19|8d3fde7 C20|ea8556e C17|bd6f178 C17|e46f62f C01 C15|2375dcb C15|d2c2767 C15|7a8c316 C15|72062ed C01 C02|b87dbba C14|3b5da40 C21|53e4c9b C15|13999fe C14|748a966 C14 | 1f35429 C12|759940c C01|92bd79e C15|04f1f54 C01 C14|21766c0 C01|de3baa5 C01|a0715ed C01 C21|4371a86 C01 C21|facd0a5 C11|45bbadf C01|2fbbb60 C21
"""
path = os.path.join(HERE, "known_findings.jsonl")
keep = [l for l in open(path).read().splitlines() if l.strip() and json.loads(l).get("status") != "fixed"]
listed = set()
for item in FIXED.strip().split("|"):
    sha, *props = item.split()
    subj = subprocess.check_output(["git", "-C", "/repo", "log", "-1", "--format=%s", sha], text=True).strip()
    listed.add(sha)
    for p in props:
        what = subj.removeprefix("fix:").strip()
        keep.append(json.dumps({"property": p, "status": "fixed", "commit": sha, "entry": f"fixed: property={p} {sha} {what}"}))
open(path, "w").write("\n".join(keep) + "\n")
for l in subprocess.check_output(["git", "-C", "/repo", "log", "--format=%h %s", "553d578..HEAD"], text=True).splitlines():
    if l.split()[0] not in listed:
        print("not listed:", l)
