"""Plant a bug: python3 tools/seed.py specs.py [id ...] -- writes /verif/seeded/<id>/ when it is confirmed.

A spec is a dict: id, prop, edits [(file, old, new)...], demo (python text), needs, breaks.
Not used by any check.
"""
import json, os, runpy, shutil, subprocess, sys, tempfile

SEEDED = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "seeded")
PY = "/opt/venv/bin/python"
DEMO = '''#!/bin/bash
# exit 0 where the property holds, nonzero where it is broken
export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD/src"
exec timeout 250 /opt/venv/bin/python "$(dirname "$0")/demo.py"
'''


def sh(cmd, cwd, **env):
    return subprocess.run(cmd, cwd=cwd, env=dict(os.environ, **env), capture_output=True, text=True, timeout=100)


def one(s):
    tmp = tempfile.mkdtemp(prefix="seed", dir="/tmp")
    try:
        r = tmp + "/repo"
        shutil.copytree("/repo", r, symlinks=True)
        d = tmp + "/" + s["id"]
        os.mkdir(d)
        open(d + "/demo.py", "w").write(s["demo"].lstrip())
        open(d + "/demo.sh", "w").write(DEMO)
        os.chmod(d + "/demo.sh", 0o755)
        json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        a = sh(["bash", d + "/demo.sh"], r)
        for f, old, new in s["edits"]:
            p = f"{r}/src/protosym/{f}"
            t = open(p).read()
            assert t.count(old) == 1, (s["id"], f, old, t.count(old))
            open(p, "w").write(t.replace(old, new))
        diff = sh(["git", "diff"], r).stdout
        open(d + "/patch.diff", "w").write(diff)
        b = sh(["bash", d + "/demo.sh"], r)
        t = sh([PY, "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "--benchmark-disable", "--xdoctest", "tests", "benchmarks", "src/protosym"], r, PYTHONPATH=r + "/src")
        ok = a.returncode == 0 and b.returncode != 0 and t.returncode == 0
        print(s["id"], s["prop"], "OK" if ok else "NO", "demo", a.returncode, b.returncode, "|", (b.stderr.strip().splitlines() or b.stdout.splitlines() or [""])[-1][:120], "| tests", t.stdout.strip().splitlines()[-1] if t.stdout else t.stderr[-200:])
        if a.returncode: print(a.stderr[-600:])
        if t.returncode: print(t.stdout[-1200:])
        if ok:
            dst = os.path.join(SEEDED, s["id"])
            if os.path.isdir(dst): shutil.rmtree(dst)
            shutil.copytree(d, dst)
    except (subprocess.TimeoutExpired, AssertionError) as e:
        print(s['id'], 'NO', e)
    finally:
        shutil.rmtree(tmp)


specs = runpy.run_path(sys.argv[1])["S"]
for s in specs:
    if len(sys.argv) == 2 or s["id"] in sys.argv[2:]:
        one(s)
