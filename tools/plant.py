"""Confirms planted bugs: in a scratch copy of the repository, each patch applies, leaves
the existing tests passing, and makes its demonstration fail. Not part of any check.

    python3 tools/plant.py [id ...]
"""

import concurrent.futures
import os
import shutil
import subprocess
import sys
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(ROOT, "seeded")
ENV = dict(JAX_PLATFORMS="cpu", MPLBACKEND="Agg", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", LANG="C.UTF-8")


def confirm(name):
    scratch = tempfile.mkdtemp(prefix="plant-")
    try:
        repo = os.path.join(scratch, "repo")
        shutil.copytree("/repo", repo, ignore=shutil.ignore_patterns("__pycache__"))
        env = dict(os.environ, **ENV, PYTHONPATH=repo, HOME=scratch, MPLCONFIGDIR=scratch)
        run = lambda cmd: subprocess.run(cmd, cwd=repo, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=900)
        demo = ["bash", os.path.join(SEEDED, name, "demo.sh")]
        before = run(demo)
        applied = run(["git", "apply", os.path.join(SEEDED, name, "patch.diff")])
        tests = run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "-p", "randomly",
                     "--randomly-seed=0", "--randomly-dont-reorganize", "tests"])  # fmt: skip
        after = run(demo)
        ok = before.returncode == 0 and applied.returncode == 0 and tests.returncode == 0 and after.returncode != 0
        text = f"{'ok  ' if ok else 'BAD '} {name}: demo {before.returncode} -> {after.returncode}, tests {tests.returncode}"
        if not ok:
            for what, p in (("before", before), ("apply", applied), ("tests", tests), ("after", after)):
                text += f"\n--- {what}\n" + "\n".join(p.stdout.splitlines()[-12:])
        else:
            text += "  | " + (after.stdout.strip().splitlines() or [""])[-1][:150]
        return text
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def main():
    names = sys.argv[1:] or sorted(os.listdir(SEEDED))
    with concurrent.futures.ThreadPoolExecutor(4) as pool:
        for text in pool.map(confirm, names):
            print(text, flush=True)


if __name__ == "__main__":
    main()
