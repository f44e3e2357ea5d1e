#!/usr/bin/env python3
"""mkseed.py SPEC.json : dev helper (no check uses it).  Applies textual edits to /repo, writes
/verif/seeded/<id>/{patch.diff,demo.sh,meta.json,...}, confirms build/tests/demo, runs the check, undoes."""
import json, os, shutil, subprocess, sys, time
sys.path.insert(0, "/verif/tools")
def sh(c, cwd="/repo", t=900):
    p = subprocess.run(c, shell=True, cwd=cwd, capture_output=True, text=True, timeout=t, errors="replace")
    return p.returncode, p.stdout + p.stderr
def undo():
    sh("git -C /repo checkout -- .")
def tests():
    rc, o = sh("bash /opt/vp/test.sh /tmp/vp_out.json")
    try:
        d = json.load(open("/tmp/vp_out.json"))
    except OSError:
        return ["no output " + o[-800:]]
    base = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    passed = set(d.get("passed", []))
    return [x for x in base if x not in passed]
def one(sid, run=True):
    d = f"/verif/seeded/{sid}"
    m = json.load(open(d + "/meta.json"))
    rc, o = sh("git status --porcelain -uno")
    assert not o.strip(), o
    try:
        sh("bash /opt/vp/build.sh")
        rc, o = sh(f"bash {d}/demo.sh")
        print(sid, "demo clean", rc, "" if rc == 0 else o[-1500:])
        ok = rc == 0
        rc, o = sh(f"git apply {d}/patch.diff"); assert rc == 0, o
        rc, o = sh("bash /opt/vp/build.sh")
        print(sid, "build", rc, "" if rc == 0 else o[-1500:]); ok &= rc == 0
        t = tests()
        print(sid, "tests broken:", t); ok &= not t
        rc, o = sh(f"bash {d}/demo.sh")
        print(sid, "demo patched", rc, o[-300:]); ok &= rc != 0
        rc, o = sh(f"python3 tools/check.py {m['property']}", cwd="/verif")
        v = [l for l in o.split("\n") if l.startswith("VIOLATION")]
        print(sid, "CHECK", rc, v, "\n".join(o.split("\n")[:8])[:1500])
        print(sid, "VALID" if ok else "INVALID", "CAUGHT" if rc == 1 and v else "MISSED")
    finally:
        undo()
for s in sys.argv[1:]:
    one(s)
