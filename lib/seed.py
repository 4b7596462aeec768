#!/usr/bin/env python3
"""Helper for planting bugs (not used by any check).
seed.py new ID   : seeded/ID/patch.diff from the changes in the scratch copy $SCRATCH (default /tmp/sc/repo), kit copied beside demo.cpp
seed.py try ID [PROP...]: in a scratch copy, demo without and with the patch, then the property's check with the patch
"""
import os, sys, subprocess, shutil, json, time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SC = os.environ.get("SCRATCH", "/tmp/sc/repo")

def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, text=True, **kw)

def scratch():
    if not os.path.exists(SC):
        os.makedirs(os.path.dirname(SC), exist_ok=True)
        sh("cp -a /repo %s" % SC, check=True)
    return SC

def reset():
    sh("git -C %s fetch -q /repo HEAD && git -C %s checkout -q -f --detach FETCH_HEAD && git -C %s checkout -q -- ." % (SC, SC, SC), check=True)

DEMO = '''#!/bin/bash
# exit 0: the property holds for this demonstration; run from the repository's root
here=$(dirname "$(readlink -f "$0")")
exec python3 "$here/kit/demo.py" "$here/demo.cpp" %s
'''
KIT = '''import os, sys, tempfile, shutil, subprocess
here = os.path.dirname(os.path.abspath(__file__))
tmp = tempfile.mkdtemp(prefix="demo.")
os.environ["VERIF_REPO"] = os.getcwd()
os.environ["VERIF_BUILD"] = tmp + "/build"
sys.path.insert(0, here + "/lib")
sys.dont_write_bytecode = True
rc = 2
try:
    import vbuild
    sets = {"core": vbuild.CORE, "full": vbuild.FULL}.get(sys.argv[2]) if len(sys.argv) == 3 and sys.argv[2] in ("core", "full") else sys.argv[2:]
    exe = vbuild.build("demo", [os.path.abspath(sys.argv[1])], sets, "fast")
    work = tmp + "/work"
    os.makedirs(work)
    env = dict(os.environ, REPO_DIR=os.getcwd(), DEMO_DIR=os.path.dirname(os.path.abspath(sys.argv[1])))
    rc = subprocess.run([exe], cwd=work, env=env, timeout=150).returncode
finally:
    shutil.rmtree(tmp, ignore_errors=True)
sys.exit(0 if rc == 0 else 1)
'''

def new(id, sets):
    d = HERE + "/seeded/" + id
    os.makedirs(d, exist_ok=True)
    diff = subprocess.run("git -C %s diff" % SC, shell=True, text=True, capture_output=True).stdout
    if diff.strip():
        open(d + "/patch.diff", "w").write(diff)
    k = d + "/kit"
    shutil.rmtree(k, ignore_errors=True)
    os.makedirs(k + "/lib")
    shutil.copytree(HERE + "/shim", k + "/shim")
    shutil.copy(HERE + "/lib/vbuild.py", k + "/lib/vbuild.py")
    open(k + "/demo.py", "w").write(KIT)
    if not os.path.exists(d + "/demo.sh"):
        open(d + "/demo.sh", "w").write(DEMO % " ".join(sets))
        os.chmod(d + "/demo.sh", 0o755)

def try_(id, props):
    d = HERE + "/seeded/" + id
    meta = json.load(open(d + "/meta.json"))
    props = props or [meta["property"]]
    reset()
    t = time.time()
    a = sh("bash %s/demo.sh" % d, cwd=SC, capture_output=True)
    print("demo unchanged: rc=%d %.0fs %s" % (a.returncode, time.time() - t, (a.stdout + a.stderr)[-600:] if a.returncode else ""))
    sh("git -C %s apply %s/patch.diff" % (SC, d), check=True)
    a = sh("bash %s/demo.sh" % d, cwd=SC, capture_output=True)
    print("demo patched:   rc=%d %s" % (a.returncode, (a.stdout + a.stderr)[-400:]))
    for p in props:
        t = time.time()
        a = sh("VERIF_REPO=%s VERIF_BUILD=/tmp/sc/build python3 %s/check.py %s" % (SC, HERE, p), capture_output=True)
        print("check %s: rc=%d %.0fs\n%s" % (p, a.returncode, time.time() - t, (a.stdout + a.stderr)[-1200:]))
    reset()

if __name__ == "__main__":
    scratch()
    if sys.argv[1] == "new":
        new(sys.argv[2], sys.argv[3:] or ["core"])
    elif sys.argv[1] == "reset":
        reset()
    else:
        try_(sys.argv[2], sys.argv[3:])
