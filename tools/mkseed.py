#!/usr/bin/env python3
"""Development tool: writes /verif/seeded/<id>/ from the entries of seedspecs.py.

An entry: S(id, property, needs, breaks, edits=[(file, old, new)], script, expect): the
script is run by /repo's fl; its output lines that start with '@' must equal expect."""
import difflib, json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# Runs t.fl on the fl of the tree in the current directory; fails unless the answers are those in expected.
D=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d) || exit 1
trap 'rm -rf "$W"' EXIT
export HOME=${HOME:-/root} USER=${USER:-root} LANG=C.UTF-8
unset DISPLAY
R=$PWD
cd "$W" || exit 1
timeout 200 "$R/bin/fl" -noX -q -T "$W" %s -F "$D/t.fl" > "$W/out" 2> "$W/err" < /dev/null
grep '^@' "$W/out" > "$W/got"
if cmp -s "$W/got" "$D/expected"; then echo ok; exit 0; fi
echo "wrong answers:"; diff "$D/expected" "$W/got" | head -20; tail -3 "$W/err"
exit 1
'''


def S(sid, prop, needs, breaks, edits, script, expect, args=""):
    if len(sys.argv) > 1 and sid not in sys.argv[1:]:
        return
    d = V + "/seeded/" + sid
    if script is None:
        raise SystemExit(sid + ": no demonstration yet")
    os.makedirs(d, exist_ok=True)
    out = []
    files = {}
    for f, old, new in edits:
        src = files.get(f) or subprocess.check_output(["git", "-C", "/repo", "show", "HEAD:" + f]).decode("utf-8")
        if src.count(old) != 1:
            raise SystemExit("%s: %d matches in %s for %r" % (sid, src.count(old), f, old))
        base = subprocess.check_output(["git", "-C", "/repo", "show", "85ce755:" + f]).decode("utf-8").split("\n")
        for l in old.split("\n"):
            if l.strip() and l not in new.split("\n") and not any(l.strip() in b for b in base):
                print(sid, "changes a line that is not original:", l)
        files[f] = src.replace(old, new)
    for f, new in files.items():
        src = subprocess.check_output(["git", "-C", "/repo", "show", "HEAD:" + f]).decode("utf-8")
        out += difflib.unified_diff(src.splitlines(True), new.splitlines(True), "a/" + f, "b/" + f)
    open(d + "/patch.diff", "w").write("".join(out))
    open(d + "/demo.sh", "w").write(DEMO % args)
    os.chmod(d + "/demo.sh", 0o755)
    open(d + "/t.fl", "w").write(script.strip() + "\nquit;\n")
    open(d + "/expected", "w").write(expect.strip() + "\n")
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)


if __name__ == "__main__":
    sys.path.insert(0, V + "/tools")
    src = open(V + "/tools/seedspecs.py").read()
    exec(compile(src, "seedspecs.py", "exec"), {"S": S})
