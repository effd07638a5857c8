#!/usr/bin/env python3
"""plant.py ID: takes /repo's uncommitted change as the patch of the planted bug ID (its demo.sh and meta.json
exist in seeded/ID), undoes it, and confirms: the patch builds and passes the tests, the demo fails with it and
passes without it.  plant.py --check ID re-confirms an existing one; --fast leaves the tests out."""
import os, shutil, subprocess, sys, json
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)
args = [a for a in sys.argv[1:] if not a.startswith("--")]
for i in args:
    d = os.path.join(V, "seeded", i)
    json.load(open(d + "/meta.json"))
    for f in ("fg.sh", "fg_main.rs", "fg.lock"):
        if "fg.sh" in open(d + "/demo.sh").read(): shutil.copy(os.path.join(V, "tools/demo", f), d)
    if "java_prog" in open(d + "/demo.sh").read(): shutil.copy(os.path.join(V, "mc/rs/jni_c_header.rs"), d)
    if "--check" not in sys.argv:
        p = sh("git -C /repo diff").stdout
        assert p.strip(), "no change in /repo"
        open(d + "/patch.diff", "w").write(p)
        sh("git -C /repo checkout -- .")
    demo = lambda: sh("bash %s/demo.sh" % d, cwd="/repo", timeout=400)
    a = demo()
    print(i, "unchanged: rc", a.returncode)
    if a.returncode: print(a.stdout[-1500:])
    try:
        assert sh("git -C /repo apply %s/patch.diff" % d).returncode == 0
        b = demo()
        print(i, "patched: rc", b.returncode, b.stdout[-300:])
        if "--fast" not in sys.argv:
            q = sh("bash /opt/vp/build.sh"); print("build", q.returncode)
            q = sh("bash /opt/vp/test.sh /tmp/o.json; python3 - <<'P'\nimport json\nb=json.load(open('/opt/vp/BASELINE.json'));o=json.load(open('/tmp/o.json'))\ns=b['stable'];s=set(s if isinstance(s,list) else s.keys())\nprint('MISSING', sorted(s-set(o['passed'])))\nP"); print(q.stdout[-400:])
    finally:
        sh("git -C /repo checkout -- .")
