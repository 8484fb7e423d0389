"""Build seeded/<id>/ from tools/seeds_*.py tables: patch.diff, demo.sh, demo.py, meta.json.

Each entry: dict(id, property, file, edits=[(old, new)], demo=python text, needs, breaks).
Verifies: demo passes on the clean tree, fails with the patch, tests pass with it.
usage: mkseeds.py [--check ID...]   (verification and the property's check)
"""
import glob
import json
import os
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "tools"))
DEMO = '#!/bin/sh\nd=$(cd "$(dirname "$0")" && pwd)\nPYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" exec python3 "$d/demo.py"\n'
PRE = '''import os, subprocess, sys, tempfile, textwrap

def cli(args, files, cwd=None):
    """Run the command line in a scratch directory; -> (status, output, contents)."""
    with tempfile.TemporaryDirectory() as d:
        for n, t in files.items():
            p = os.path.join(d, n)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "w") as f:
                f.write(t)
        env = dict(os.environ, PYTHONPATH=os.getcwd())
        r = subprocess.run(
            [sys.executable, "-c", "from sqlvalidator.main import _main; _main()"] + args,
            cwd=d, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
        )
        out = {}
        for root, _, fs in os.walk(d):
            for f in fs:
                p = os.path.join(root, f)
                out[os.path.relpath(p, d)] = open(p).read()
        return r.returncode, r.stdout, out

'''


def load():
    out = []
    for p in sorted(glob.glob(os.path.join(HERE, "tools", "seeds_*.py"))):
        ns = {}
        exec(open(p).read(), ns)
        out += ns["SEEDS"]
    return out


def main():
    only = [a for a in sys.argv[1:] if not a.startswith("-")]
    nocheck = "--nocheck" in sys.argv
    for s in load():
        if only and s["id"] not in only and s["property"] not in only:
            continue
        w = "/tmp/seedwork"
        shutil.rmtree(w, ignore_errors=True)
        shutil.copytree("/repo", w, symlinks=True)
        edits = s["edits"]
        for ed in edits:
            f, old, new = ed if len(ed) == 3 else (s["file"],) + tuple(ed)
            p = os.path.join(w, f)
            t = open(p).read()
            if t.count(old) != 1:
                print(s["id"], "EDIT DOES NOT APPLY (%d times): %r" % (t.count(old), old[:60]))
                break
            open(p, "w").write(t.replace(old, new))
        else:
            patch = subprocess.run(["git", "diff"], cwd=w, capture_output=True, text=True).stdout
            d = os.path.join(HERE, "seeded", s["id"])
            os.makedirs(d, exist_ok=True)
            open(os.path.join(d, "patch.diff"), "w").write(patch)
            open(os.path.join(d, "demo.sh"), "w").write(DEMO)
            os.chmod(os.path.join(d, "demo.sh"), 0o755)
            open(os.path.join(d, "demo.py"), "w").write(PRE + s["demo"].lstrip("\n"))
            json.dump(
                {"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]},
                open(os.path.join(d, "meta.json"), "w"), indent=1,
            )
            run = lambda cwd: subprocess.run(["sh", d + "/demo.sh"], cwd=cwd, capture_output=True, text=True)
            a, b = run("/repo"), run(w)
            t = subprocess.run(
                ["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider"],
                cwd=w, capture_output=True, text=True, env=dict(os.environ, PYTHONPATH=w),
            )
            msg = []
            if a.returncode:
                msg.append("DEMO FAILS ON CLEAN: " + (a.stdout + a.stderr)[-300:])
            if not b.returncode:
                msg.append("DEMO PASSES WITH BUG")
            if t.returncode:
                msg.append("TESTS FAIL: " + t.stdout[-300:])
            verdict = "-"
            if not nocheck and not msg:
                c = subprocess.run(
                    [sys.executable, "-m", "sa.run", s["property"]], cwd=HERE,
                    env=dict(os.environ, SA_REPO=w), capture_output=True, text=True,
                )
                verdict = "CAUGHT" if c.returncode == 1 and "VIOLATION" in c.stdout else "missed rc=%d %s" % (c.returncode, c.stdout[-300:] + c.stderr[-300:])
                if verdict == "CAUGHT":
                    verdict += ": " + c.stdout.strip().split("\n")[0].strip()[:150]
            print(s["id"], "; ".join(msg) or "ok", verdict, flush=True)
        shutil.rmtree(w, ignore_errors=True)


main()
