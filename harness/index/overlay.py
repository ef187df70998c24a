"""Has the RPC packages with goroutines rewritten so that the explorer's scheduler can run them."""
import json, os, subprocess, sys


def make(repo, root, tmp, env):
    tool = os.path.join(tmp, "conc")
    r = subprocess.run(["go", "build", "-o", tool, os.path.join(root, "tools/conc/main.go")], cwd=tmp, env=env, capture_output=True, text=True)
    if r.returncode != 0:
        sys.exit("conc: " + r.stdout + r.stderr)
    r = subprocess.run([tool, "-repo", repo, "-out", tmp, "-tags", "ledger test_ledger_mock verif",
                        "jsonrpc/backend", "jsonrpc/namespaces/eth/filters"], cwd=tmp, env=env, capture_output=True, text=True)
    if r.returncode != 0:
        print("BUILD-ERROR conc: " + r.stdout[-2000:] + r.stderr[-4000:])
        sys.exit(2)
    return json.loads(r.stdout)
