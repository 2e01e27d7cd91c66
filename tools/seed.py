# Plants one bug: python3 tools/seed.py FILE.py  (FILE defines ID, PROPERTY, EDITS=[(file, old, new)], DEMO, NEEDS, BREAKS)
# Works on a scratch copy of /repo that is bind-mounted over /repo in a mount namespace of its own.
import sys, os, subprocess, json, shutil
ns = {}; exec(open(sys.argv[1]).read(), ns)
V = "/verif"; SW = "/tmp/sw"; d = "%s/seeded/%s" % (V, ns["ID"])
def sh(c, check=False):
    r = subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if check and r.returncode: print(r.stdout[-3000:]); sys.exit("failed: " + c)
    return r
def inns(c): return sh("unshare -rm bash -c 'mount --bind %s /repo && %s'" % (SW, c))
os.makedirs(d, exist_ok=True)
sh("git -C %s fetch -q /repo HEAD && git -C %s checkout -q -f FETCH_HEAD" % (SW, SW), True)
open(d + "/demo.cpp", "w").write(ns["DEMO"]); shutil.copy(V + "/tools/demo.sh", d + "/demo.sh"); os.chmod(d + "/demo.sh", 0o755)
for f, b in ns.get("FILES", {}).items(): open(d + "/" + f, "w").write(b)
def build(): r = inns("bash /opt/vp/build.sh"); return r.returncode, r.stdout
rc, out = build()
if rc: print(out[-2000:]); sys.exit("clean build fails")
r = inns("cd /repo && bash %s/demo.sh" % d)
print("clean demo:", r.returncode, r.stdout[-600:])
if r.returncode: sys.exit(1)
for f, old, new in ns["EDITS"]:
    p = SW + "/" + f; s = open(p).read()
    if s.count(old) != 1: sh("git -C %s checkout -q -f HEAD" % SW); sys.exit("%s: old text occurs %d times" % (f, s.count(old)))
    open(p, "w").write(s.replace(old, new))
open(d + "/patch.diff", "w").write(sh("git -C %s diff" % SW).stdout)
json.dump({"property": ns["PROPERTY"], "needs": ns["NEEDS"], "what_it_breaks": ns["BREAKS"]}, open(d + "/meta.json", "w"), indent=1)
rc, out = build()
if rc: print(out[-2500:]); print("BUILD FAILS")
else:
    r = inns("cd /repo && bash %s/demo.sh" % d); print("patched demo:", r.returncode, r.stdout[-600:])
    inns("bash /opt/vp/test.sh /tmp/seed-test.json")
    b = set(json.load(open("/opt/vp/BASELINE.json"))["stable"]); t = json.load(open("/tmp/seed-test.json"))
    print("stable tests missing:", sorted(b - set(t["passed"])))
    # checks of the property on the patched tree
    for pid in [ns["PROPERTY"]] + ns.get("ALSO", []):
        if "--nocheck" in sys.argv: break
        r = sh("cd %s && VP_REPO=%s timeout 900 python3 check.py %s 2>&1 | tail -4" % (V, SW, pid)); print("check %s:\n%s" % (pid, r.stdout[-900:]))
sh("git -C %s checkout -q -f HEAD" % SW, True)
