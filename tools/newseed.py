#!/usr/bin/env python3
"""newseed.py SPEC.py: writes seeded/<id>/ from SEEDS = [dict(id, property, file, edits=[(old,new),...] or
files={file: edits}, fl, expect, needs, breaks, demo(optional python text))].  A developer's tool."""
import difflib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = r'''import os, re, subprocess, sys, tempfile
FL = r"""@FL@
"""
EXPECT = @EXPECT@
with tempfile.TemporaryDirectory() as d:
    open(d + "/t.fl", "w").write(FL + "\nquit;\n")
    os.mkdir(d + "/t")
    root = os.getcwd()
    env = dict(os.environ, USER="root", HOME=d)
    env.pop("DISPLAY", None)
    try:
        p = subprocess.run([root + "/bin/fl", "-noX", "-q", "-T", d + "/t", "-f", d + "/t.fl"] + @ARGS@, cwd=d, env=env,
                           stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=@TMO@)
    except subprocess.TimeoutExpired:
        print("timed out"); sys.exit(1)
    out = p.stdout.decode("latin-1")
if p.returncode != 0:
    print("fl ended with", p.returncode, out[-500:]); sys.exit(1)
got = re.findall(r"^RES (.*)$", out, re.M)
if got != EXPECT:
    print("expected", EXPECT, "got", got, out[-500:] if not got else ""); sys.exit(1)
print("ok")
'''
ns = {}
exec(open(sys.argv[1]).read(), ns)
only = sys.argv[2:]
for s in ns["SEEDS"]:
    if only and s["id"] not in only:
        continue
    d = V + "/seeded/" + s["id"]
    os.makedirs(d, exist_ok=True)
    patch = ""
    for f, edits in (s.get("files") or {s["file"]: s["edits"]}).items():
        a = open("/repo/" + f, encoding="latin-1").read()
        b = a
        for old, new in edits:
            assert b.count(old) == 1, (s["id"], b.count(old), old)
            b = b.replace(old, new)
        patch += "".join(l if l.endswith("\n") else l + "\n\\ No newline at end of file\n" for l in
                         difflib.unified_diff(a.splitlines(True), b.splitlines(True), "a/" + f, "b/" + f))
    open(d + "/patch.diff", "w", encoding="latin-1").write(patch)
    demo = s.get("demo") or DEMO.replace("@FL@", s["fl"]).replace("@EXPECT@", repr(s["expect"])).replace(
        "@TMO@", str(s.get("timeout", 100))).replace("@ARGS@", repr(s.get("args", [])))
    open(d + "/demo.py", "w").write(demo)
    open(d + "/demo.sh", "w").write('#!/bin/bash\nexec python3 "$(dirname "$0")/demo.py"\n')
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]},
              open(d + "/meta.json", "w"), indent=1)
    print(s["id"])
