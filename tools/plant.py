"""Make one planted bug and confirm it: plant.py SPEC.py   (SPEC defines id, property, needs, breaks, edits, demo)

edits: list of (file, old, new).  demo: the text of a Python program which exits 0 on the right code and raises
with the change; it runs with the tree under test as its working directory and on PYTHONPATH.
The change is made in a scratch copy of /repo; --tests also runs the repository's tests there."""
import json, os, runpy, shutil, subprocess, sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEED = HERE + "/seeded"
REPO = os.environ.get("VERIF_REPO", "/repo")
PY = "/opt/venv/bin/python"
DEMO = '''#!/bin/bash
# run in the root of the tree under test
here="$(cd "$(dirname "$0")" && pwd)"
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg OMP_NUM_THREADS=2 PYTHONWARNINGS=ignore CUDA_VISIBLE_DEVICES=
exec /opt/venv/bin/python "$here/demo.py"
'''


def main():
    tests = "--tests" in sys.argv
    for path in [a for a in sys.argv[1:] if not a.startswith("--")]:
        s = runpy.run_path(path)
        d = os.path.join(SEED, s["id"])
        os.makedirs(d, exist_ok=True)
        work = "/tmp/w/plant_" + s["id"]
        shutil.rmtree(work, ignore_errors=True)
        subprocess.run(["cp", "-a", REPO, work], check=True)
        subprocess.run(["git", "checkout", "-q", "--", "."], cwd=work, check=True)
        open(d + "/demo.py", "w").write(s["demo"].lstrip("\n"))
        for f in s.get("files", []):
            shutil.copy(f, d)
        open(d + "/demo.sh", "w").write(DEMO)
        os.chmod(d + "/demo.sh", 0o755)
        json.dump(dict(property=s["property"], needs=s["needs"], what_it_breaks=s["breaks"]),
                  open(d + "/meta.json", "w"), indent=1)
        before = subprocess.run(["bash", d + "/demo.sh"], cwd=work, capture_output=True, text=True)
        for f, old, new in s["edits"]:
            p = os.path.join(work, f)
            t = open(p).read()
            assert t.count(old) == 1, (f, t.count(old), old)
            open(p, "w").write(t.replace(old, new))
        if any(f.endswith((".pyx", ".cpp", ".pxd")) for f, _, _ in s["edits"]):
            b = subprocess.run([PY, "/opt/vp/lib/build_ext.py"], cwd=work, capture_output=True, text=True, env=dict(os.environ, EIGEN3_PATH="/usr/include/eigen3"))
            print("  (extension built: %d)" % b.returncode)
        after = subprocess.run(["bash", d + "/demo.sh"], cwd=work, capture_output=True, text=True)
        diff = subprocess.run(["git", "diff"], cwd=work, capture_output=True, text=True, check=True).stdout
        open(d + "/patch.diff", "w").write(diff)
        mine = set()
        for f, old, new in s["edits"]:
            base = subprocess.run(["git", "-C", REPO, "rev-list", "--max-parents=0", "HEAD"], capture_output=True, text=True).stdout.strip()
            orig = subprocess.run(["git", "-C", REPO, "show", base + ":" + f], capture_output=True, text=True).stdout
            for line in set(old.splitlines()) - set(new.splitlines()):
                if line not in orig.splitlines():
                    mine.add(line)
        print(s["id"], "demo before %d after %d" % (before.returncode, after.returncode), "NOT ORIGINAL %s" % mine if mine else "")
        if before.returncode:
            print(before.stdout[-800:], before.stderr[-1500:])
        elif not after.returncode:
            print("  the demo does not fail with the change")
        else:
            print("   ", (after.stderr.strip().splitlines() or ["?"])[-1][:200])
        checks = [s["property"]] + list(s.get("also", [])) if "--check" in sys.argv else []
        for c in checks:
            env = dict(os.environ, VERIF_REPO=work, PYTHONPATH=":".join([work, HERE, HERE + "/.deps"]), VERIF_FIRST="1", MPLBACKEND="Agg", PYTHONHASHSEED="0", OMP_NUM_THREADS="1",
                       OPENBLAS_NUM_THREADS="1", CUDA_VISIBLE_DEVICES="", PYTHONDONTWRITEBYTECODE="1", PYTHONWARNINGS="ignore")
            r = subprocess.run([PY, "-m", "vlib.run", c, "--tier", "quick"], cwd=HERE, env=env, capture_output=True, text=True)
            print("   ", c, "CAUGHT" if r.returncode == 1 else "missed" if r.returncode == 0 else "error %d" % r.returncode, (r.stdout.strip().splitlines() or ["?"])[-1][:200])
        if tests and not before.returncode and after.returncode:
            env = dict(os.environ, PYTHONPATH=work + ":/opt/vp/lib", MPLBACKEND="Agg", PYTHONDONTWRITEBYTECODE="1",
                       OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", CUDA_VISIBLE_DEVICES="", PYTHONHASHSEED="0")
            r = subprocess.run([PY, "-m", "pytest", "tests", "-q", "-p", "no:cacheprovider", "-p", "vp_seed", "-n", "8", "--dist", "worksteal",
                                "--timeout=600", "--tb=line"], cwd=work, env=env, capture_output=True, text=True)
            print("   tests:", r.stdout.strip().splitlines()[-1] if r.stdout.strip() else r.stderr[-500:])
            for l in r.stdout.splitlines():
                if l.startswith(("FAILED", "ERROR")):
                    print("     ", l[:160])
        shutil.rmtree(work, ignore_errors=True)


main()
