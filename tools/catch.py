"""python3 tools/catch.py [--all] [id ...]: run each planted bug's check (or all checks) against a patched copy."""
import glob, json, os, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = [a for a in sys.argv[1:] if not a.startswith("--")]
ids = args or sorted(os.listdir(V + "/seeded"))
def run(i):
    d = f"{V}/seeded/{i}"
    tmp = tempfile.mkdtemp(prefix="catch", dir="/tmp")
    r = tmp + "/repo"
    shutil.copytree("/repo", r, symlinks=True)
    subprocess.run(["git", "apply", d + "/patch.diff"], cwd=r, check=True)
    p = json.load(open(d + "/meta.json"))["property"]
    props = [f"C{n:02d}" for n in range(1, 31)] if "--all" in sys.argv else [p]
    out = []
    hits.pop(i, None)
    for q in props:
        t = time.time()
        o = subprocess.run(["python3-vt", "-m", "px.run", q], cwd=V, env=dict(os.environ, PX_REPO=r), capture_output=True, text=True)
        last = [l for l in o.stdout.splitlines() if l.startswith(("VIOLATION", "DEGRADED"))][:1] or o.stdout.splitlines()[-1:] or [o.stderr[-200:]]
        out.append(f"{i:28s} {q} rc={o.returncode} {time.time()-t:.0f}s {last[0][:150]}")
        if o.returncode == 1:
            hits.setdefault(i, []).append(q)
    shutil.rmtree(tmp)
    return "\n".join(out)
F = V + "/tools/caught.json"
hits = json.load(open(F)) if os.path.exists(F) else {}
for i in ids:
    print(run(i), flush=True)
    json.dump(dict(sorted(hits.items())), open(F, "w"), indent=1)
for x in os.listdir(V + "/replays"):
    os.remove(V + "/replays/" + x)
