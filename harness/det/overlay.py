"""Has the consensus packages rewritten so that map order and the clock are chosen per node and every function is a stop."""
import json, os, subprocess, sys

SKIP = {"client", "config", "contracts", "testutil"}


def packages(repo):
    for top in ("app", "x"):
        for at, dirs, files in os.walk(os.path.join(repo, top)):
            dirs[:] = sorted(d for d in dirs if d not in SKIP)
            if any(f.endswith(".go") and not f.endswith("_test.go") for f in files):
                rel = os.path.relpath(at, repo)
                yield rel + (":nopoints" if rel in ("x/evm/state", "x/evm/types") else "")


def make(repo, root, tmp, env):
    tool = os.path.join(tmp, "det")
    r = subprocess.run(["go", "build", "-o", tool, os.path.join(root, "tools/det/main.go")], cwd=tmp, env=env, capture_output=True, text=True)
    if r.returncode != 0:
        sys.exit("det: " + r.stdout + r.stderr)
    r = subprocess.run([tool, "-repo", repo, "-out", tmp, "-tags", "ledger test_ledger_mock verif"] + list(packages(repo)), cwd=tmp, env=env, capture_output=True, text=True)
    if r.returncode != 0:
        print("BUILD-ERROR det: " + r.stdout[-2000:] + r.stderr[-4000:])
        sys.exit(2)
    rep = json.loads(r.stdout)
    # the chain of package index
    lab = open(os.path.join(root, "harness/index/lab_test.go")).read().replace("package index", "package det", 1)
    dst = os.path.join(tmp, "lab_test.go")
    open(dst, "w").write(lab)
    rep[os.path.join(repo, "verifmc/det/lab_test.go")] = dst
    return rep
