#!/usr/bin/env python3
"""mut.py CNN file old new [n] : run a check against a mutated copy."""
import sys, subprocess, shutil, os, tempfile
pid, f, old, new = sys.argv[1:5]
d = tempfile.mkdtemp(prefix="mr", dir="/tmp")
r = d + "/repo"
shutil.copytree("/repo", r, symlinks=True)
p = f"{r}/src/protosym/{f}"
s = open(p).read()
old = old.encode().decode("unicode_escape"); new = new.encode().decode("unicode_escape")
assert s.count(old) >= 1, ("not found", old)
open(p, "w").write(s.replace(old, new, 1))
env = dict(os.environ, PX_STRICT="1", PX_REPO=r)
if "-t" in sys.argv:
    t = subprocess.run(["/opt/venv/bin/python","-m","pytest","-q","-x",r+"/tests"],cwd=r,env=dict(os.environ,PYTHONPATH=r+"/src"),capture_output=True,text=True)
    print("TESTS", t.stdout.strip().splitlines()[-1] if t.stdout else t.stderr[-300:])
for q in pid.split(","):
    o = subprocess.run(["python3-vt", "-m", "px.run", q], cwd="/verif", env=env, capture_output=True, text=True)
    ls = o.stdout.strip().splitlines()
    print(q, "rc", o.returncode, "|", "\n   ".join(l[:300] for l in ls[-4:]), o.stderr[-300:])
shutil.rmtree(d)
for x in os.listdir("/verif/replays"):
    os.remove("/verif/replays/" + x)
