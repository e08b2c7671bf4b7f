"""Replay driver (runs under the repository's interpreter, without z3).

stdin/argv: JSON {"jobs": [{"property", "harness", "params", "inputs",
"variants"}]}; stdout: JSON list with one result list per job.
"""

from __future__ import annotations

import faulthandler
import json
import os
import sys

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
LIMIT = 60
REPO = os.environ.get("PX_REPO", "/repo")


def main():
    sys.path.insert(0, VERIF)
    sys.path.insert(0, os.path.join(REPO, "src"))
    from px import concrete
    from px.registry import find

    faulthandler.enable()
    path = sys.argv[1] if len(sys.argv) > 1 else "-"
    data = json.load(sys.stdin if path == "-" else open(path))
    single = "jobs" not in data
    jobs = [data] if single else data["jobs"]
    real_stdout = os.dup(1)
    os.dup2(2, 1)
    sink = os.fdopen(real_stdout, "w")
    bad = False
    for job in jobs:
        h = find(job["property"], job["harness"])
        res = []
        for variant in job.get("variants", ["model"]):
            # a run that hangs says where (see Master.judge)
            faulthandler.dump_traceback_later(LIMIT, exit=True)
            r = concrete.run(
                h, job["params"], job["inputs"], variant, job.get("seed", 1),
                job.get("tier", "quick"),
            )  # fmt: skip
            faulthandler.cancel_dump_traceback_later()
            res.append(r)
            if r["status"] in ("fail", "error"):
                bad = True
                if not job.get("all_variants"):
                    break
        sink.write(json.dumps(res) + "\n")
        sink.flush()
    if single:
        print("replay:", "property violated" if bad else "not reproduced", file=sink)
        sink.flush()
        os._exit(1 if bad else 0)
    os._exit(0)


if __name__ == "__main__":
    main()
