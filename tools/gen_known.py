#!/usr/bin/env python3
"""Writes /verif/known_findings.json: repaired defects (from the fix: commits of /repo) and open ones."""
import json, os, subprocess, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
PROPS = """0638131 C01
2f95187 C02
3fe071d C03,C21
918a178 C03
3e4ea34 C03,C13
0a8a15e C03
3382533 C07
14b0043 C05
e6f0bdd C05
3f71fda C04
2c0af01 C08
767fd4b C09
15edb49 C10,C06
7d74711 C10
89f404d C10
98cbee8 C11
68d05a9 C11
7d130ba C11
ccd46f5 C11
40df8f6 C13
38439ef C13,C21
3b6cc14 C13
b2d3e69 C13
f422815 C28
35cf27c C21
e478ddd C22
3ef6d81 C22
cccac71 C22
14f5cfe C26
ff8c056 C26
d5903bf C26
a89c29d C26
5fe3e8a C26,C27
59753d2 C27
e2529c1 C27
4a14c85 C14
9216f74 C16
169cb78 C17
384dc19 C17
d7d546f C30
636ab1f C18
85b8420 C30
2ba20b0 C18
2ca6c33 C18
ca8893b C19
e7541ad C19
637fe00 C19
790d49a C19
77c125f C23
46f47f2 C23
c78d7ba C23
ec541fe C23
6ae0a82 C23
c092831 C23
a69e808 C23
63e3d10 C24
acbe3e2 C24
b15a277 C24
50b157d C25
9357368 C24
6dd76f4 C25
3c68eb7 C29
e0728a4 C29
df33c78 C29
24464e3 C29
aecd36c C29
f788af4 C08
5cd674c C26
72f20af C23
434c399 C19
ce302f8 C18
4232907 C18
4855177 C02
fa04d14 C09
220eead C13
268cd0c C31
569ea77 C32
44ac116 C32
794cee4 C32
49666e9 C32
d149b15 C32
cc3cb4d C32
59a854b C33
345dfad C34
4babf71 C26
847940d C31,C08
bee6010 C32"""
OPEN = []
m = dict(l.split() for l in PROPS.splitlines())
out = []
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s", "c1c630a.."], capture_output=True, text=True, check=True).stdout
for l in log.splitlines():
    h, s = l.split(" ", 1)
    if not s.startswith("fix: "):
        continue
    if h not in m:
        sys.exit("no property for " + l)
    for p in m[h].split(","):
        out.append({"property": p, "status": "fixed", "text": "fixed: property=%s %s %s" % (p, h, s[5:])})
out += OPEN
json.dump(out, open(os.path.join(V, "known_findings.json"), "w"), indent=1)
print(len(out))
