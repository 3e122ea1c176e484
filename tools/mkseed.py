#!/usr/bin/env python3
"""mkseed.py ID PROPERTY FILE NEEDS BREAKS < 'old ===> new': records a planted bug as seeded/ID/patch.diff + meta.json."""
import sys, subprocess, json, os
i, prop, files, needs, breaks = sys.argv[1:6]
parts = sys.stdin.read().split("\n@@@@\n")
for f, part in zip(files.split(","), parts):
    p = "/repo/" + f; s = open(p, newline="").read(); crlf = "\r\n" in s
    old, new = part.rstrip("\n").split("\n====>\n")
    if new == "-": new = ""
    if crlf: old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
    assert s.count(old) == 1, (f, s.count(old))
    open(p, "w", newline="").write(s.replace(old, new))
d = subprocess.run(["git", "-C", "/repo", "diff"], capture_output=True).stdout
subprocess.run(["git", "-C", "/repo", "checkout", "--", "."])
os.makedirs("/verif/seeded/" + i, exist_ok=True)
open("/verif/seeded/%s/patch.diff" % i, "wb").write(d)
json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open("/verif/seeded/%s/meta.json" % i, "w"), indent=1)
sh = "/verif/seeded/%s/demo.sh" % i
if not os.path.exists(sh):
    open(sh, "w").write('''#!/bin/bash
d=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
g++ -w -fno-access-control -Dno_TRICK_ENV=1 -I. -Icore -Iaspects -Ims-utils -Igunns-ts-models "$d/demo.cc" _build/libgunns.a -lpthread -o "$t/demo" || exit 2
cd "$t" && ./demo
''')
    os.chmod(sh, 0o755)
