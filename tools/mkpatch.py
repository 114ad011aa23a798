#!/usr/bin/env python3
"""mkpatch.py ID FILE OLD NEW [FILE OLD NEW ...]: write seeded/ID/patch.diff replacing OLD by NEW (must occur once, in original lines)."""
import sys, os, subprocess, difflib
i = sys.argv[1]; d = "/verif/seeded/" + i; os.makedirs(d, exist_ok=True)
out = ""; files = {}
a = sys.argv[2:]
base = subprocess.run("git -C /repo log --format=%H | tail -1", shell=True, capture_output=True, text=True).stdout.strip()
while a:
    f, old, new = a[:3]; a = a[3:]
    s = files.setdefault(f, open("/repo/" + f).read())
    assert s.count(old) == 1, (f, s.count(old), old)
    files[f] = s.replace(old, new)
for f, n in files.items():
    o = open("/repo/" + f).read()
    out += "".join(difflib.unified_diff(o.splitlines(True), n.splitlines(True), "a/" + f, "b/" + f))
    bl = subprocess.run(["git", "-C", "/repo", "blame", "-l", "-s", f], capture_output=True, text=True).stdout.splitlines()
    sm = difflib.SequenceMatcher(None, o.splitlines(), n.splitlines(), autojunk=False)
    for tag, i1, i2, j1, j2 in sm.get_opcodes():
        if tag != "equal":
            for k in range(i1, i2):
                if not bl[k].startswith("^"): print("NOT ORIGINAL:", f, k + 1, bl[k][:120])
open(d + "/patch.diff", "w").write(out)
print(out)
