"""Sanity of the toolchain (setup_cmd): z3, the interpreters, the loader."""

import subprocess
import sys

sys.dont_write_bytecode = True


def main():
    import z3

    from px import engine
    from px.run import REPO, VENV_PY, replay_env

    def h(E):
        n = E.int("n")
        core = E.mod("protosym.core.atom")
        k = core.AtomType("Integer", int)
        E.check("same", E.iff(k(n) is k(0), n == 0))

    stack, st, done = [[]], engine.Stats(), 0
    while stack:
        r = engine.run_path(h, {}, stack.pop(), st, "quick")
        assert r.status == "ok" and not r.violations, (r.status, r.detail, r.violations)
        stack += r.alts
        done += 1
    assert done == 2, done
    out = subprocess.run(
        [VENV_PY, "-c", "import protosym.simplecas as s; print(s.__file__)"],
        capture_output=True, text=True, env=replay_env(), cwd="/",
    )
    assert out.stdout.strip().startswith(REPO), out
    print("selftest ok: z3", z3.get_version_string(), "repo", REPO)


if __name__ == "__main__":
    main()
