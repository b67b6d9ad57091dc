#!/usr/bin/env python3
"""plant.py ID SPEC.py : SPEC defines property, needs, breaks, edits=[(file, old, new)], demo (C++ text), runs (optional)."""
import json, os, subprocess, sys, tempfile, shutil
pid, spec = sys.argv[1], sys.argv[2]
ns = {}
exec(open(spec).read(), ns)
d = "/verif/seeded/" + pid
os.makedirs(d, exist_ok=True)
w = tempfile.mkdtemp()
out = b""
try:
    seen = {}
    for e in ns["edits"]:  # (file, old, new[, n]): the n-th occurrence of old, otherwise old must be unique
        f, old, new = e[:3]
        t = seen.setdefault(f, open("/repo/" + f).read())
        parts = t.split(old)
        n = e[3] if len(e) > 3 else 1
        assert len(parts) == 2 or len(e) > 3 and n < len(parts), (f, len(parts) - 1, old)
        seen[f] = old.join(parts[:n]) + new + old.join(parts[n:])
    for f in seen:
        for side in "ab":
            os.makedirs(os.path.dirname("%s/%s/%s" % (w, side, f)), exist_ok=True)
        shutil.copy("/repo/" + f, "%s/a/%s" % (w, f))
        open("%s/b/%s" % (w, f), "w").write(seen[f])
        out += subprocess.run(["diff", "-u", "a/" + f, "b/" + f], cwd=w, stdout=subprocess.PIPE).stdout
    open(d + "/patch.diff", "wb").write(out)
    # changed lines must be lines of the original repository
    for f in seen:
        import difflib
        a, b = open("/repo/" + f).read().split("\n"), seen[f].split("\n")
        blame = subprocess.run(["git", "-C", "/repo", "blame", "-s", f], stdout=subprocess.PIPE, text=True).stdout.split("\n")
        for tag, i1, i2, j1, j2 in difflib.SequenceMatcher(None, a, b, autojunk=False).get_opcodes():
            if tag != "equal":
                for k in range(i1, i2):
                    if not blame[k].startswith("^") and subprocess.run(["git", "-C", "/repo", "merge-base", "--is-ancestor", blame[k].split()[0], "34a9e49"]).returncode:
                        print("NOT ORIGINAL:", blame[k])
finally:
    shutil.rmtree(w)
open(d + "/demo.cpp", "w").write(ns["demo"].lstrip())
open(d + "/demo.sh", "w").write("""#!/bin/bash
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 9
trap '/bin/rm -rf "$t"' EXIT
ulimit -c 0
g++ -std=gnu++20 -O1 -g -DNDEBUG -DLIBCOPP_FCONTEXT_USE_TSX=1 %s -I/repo/include -I/repo/_build/_generated/include "$d/demo.cpp" -o "$t/demo" /repo/_build/libcotask.a /repo/_build/libcopp.a -lpthread || exit 8
timeout 120 "$t/demo" >"$t/out"
rc=$?
cat "$t/out"
[ $rc = 0 ] || exit $rc
# a broken context switch can end the process with status 0
grep -q "^demo ok$" "$t/out"
""" % ns.get("flags", ""))
os.chmod(d + "/demo.sh", 0o755)
json.dump({"property": ns["property"], "needs": ns["needs"], "what_it_breaks": ns["breaks"]}, open(d + "/meta.json", "w"), indent=1)
