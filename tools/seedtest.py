#!/usr/bin/env python3
"""seedtest.py ID [--fast]: checks one planted bug in scratch copies (patch applies, builds, tests pass, demo 0 / nonzero) and runs its property's check
against it (in /repo, undone straight afterwards)."""
import json, os, subprocess, sys, shutil
sid = sys.argv[1]; d = "/verif/seeded/" + sid
run = lambda c, **k: subprocess.run(c, shell=True, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)
W = "/tmp/seedwt"
if "--check-only" not in sys.argv:
    if not os.path.isdir(W):
        run("cp -a /repo " + W)
    run("git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD", cwd=W)
    if not os.path.exists(d + "/demo.sh"):
        shutil.copy("/verif/tools/demo/demo.sh", d + "/demo.sh")
    demo = "/tmp/seeddemo"
    shutil.rmtree(demo, ignore_errors=True)
    shutil.copytree(d, demo, ignore=shutil.ignore_patterns("*.diff", "meta.json"))
    r = run("timeout 300 bash %s/demo.sh" % demo, cwd=W)
    print("demo unchanged:", r.returncode, r.stdout[-1500:] if r.returncode else "")
    r = run("git apply --check %s/patch.diff && git apply %s/patch.diff" % (d, d), cwd=W)
    if r.returncode:
        print("patch:", r.stdout); sys.exit(1)
    # only lines of the original repository
    rm = [l[1:] for l in open(d + "/patch.diff") if l.startswith("-") and not l.startswith("---")]
    mine = run("git -C /repo diff -U0 fed6ff0 HEAD | grep '^+' | cut -c2-").stdout.splitlines()
    for l in rm:
        if l.rstrip("\n") in mine and len(l.strip()) > 8:
            print("NOTE: removes a line that a fix added:", l.strip())
    s = open("/opt/vp/test.sh").read().replace("/repo", W)
    r = run("timeout 800 bash -c 'bash <(sed s,/repo,%s,g /opt/vp/build.sh) >/tmp/seed.b 2>&1 && bash <(sed s,/repo,%s,g /opt/vp/test.sh) /tmp/seed.json | tail -1'" % (W, W), cwd=W)
    print("build+tests:", r.returncode, r.stdout.strip()[-300:])
    r = run("timeout 300 bash %s/demo.sh" % demo, cwd=W)
    print("demo patched:", r.returncode, r.stdout[-900:])
    run("git checkout -q -- .", cwd=W)
if "--fast" not in sys.argv:
    prop = json.load(open(d + "/meta.json"))["property"]
    run("git -C /repo apply %s/patch.diff" % d)
    try:
        for p in [prop] + [a for a in sys.argv[2:] if a.startswith("C")]:
            r = run("python3 /verif/check.py " + p)
            print("check %s: exit %d, %s" % (p, r.returncode, "\n".join(l for l in r.stdout.splitlines() if l.startswith(("VIOLATION", p + ":")))[-300:]))
    finally:
        run("git -C /repo checkout -- .")
