#!/usr/bin/env python3
"""Builds the harness package of one property over /repo's working tree and runs its check."""
import json, os, subprocess, sys, tempfile, shutil
ROOT = os.environ.get("VERIF_ROOT") or os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
PKG = {}
for d in sorted(os.listdir(os.path.join(ROOT, "harness"))):
    p = os.path.join(ROOT, "harness", d)
    for f in sorted(os.listdir(p)):
        if f.endswith("_test.go"):
            for line in open(os.path.join(p, f)):
                if line.startswith("func Test"):
                    PKG[line[9:line.index("(")]] = d

def env():
    e = dict(os.environ)
    e.update(HOME="/root", PATH="/opt/veriftools/go1.23.12/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
             GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="", GOPATH="/root/go", GOMODCACHE="/root/go/pkg/mod",
             GOCACHE="/root/.cache/go-build", CGO_ENABLED="1")
    return e

def overlay(pkgs, tmp):
    rep = {}
    for d in ["core", "sched"] + [p for p in pkgs if p not in ("core", "sched")]:
        src = os.path.join(ROOT, "harness", d)
        for at, _, files in os.walk(src):
            for f in files:
                if f.endswith(".go"):
                    rel = os.path.relpath(os.path.join(at, f), src)
                    rep[f"{REPO}/verifmc/{d}/{rel}"] = os.path.join(src, rel)
    return rep

def main():
    if sys.argv[1] == "--build-all":
        one = {}
        for pid, pkg in PKG.items():
            one.setdefault(pkg, pid)
        bad = 0
        for pkg, pid in one.items():
            rc = subprocess.run([sys.executable, os.path.abspath(__file__), pid, "build"]).returncode
            print("build", pkg, "ok" if rc == 0 else "FAILED")
            bad |= rc
        return 0
    pid, tier = sys.argv[1], sys.argv[2]
    pkg = PKG[pid]
    tmp = tempfile.mkdtemp(prefix="verif-")
    try:
        if not os.path.exists(REPO + "/go.work.sum") and os.path.exists("/opt/vp/go.work.sum"):
            shutil.copy("/opt/vp/go.work.sum", REPO + "/go.work.sum")
        rep = overlay([pkg], tmp)
        hook = os.path.join(ROOT, "harness", pkg, "overlay.py")
        if os.path.exists(hook):
            ns = {"__file__": hook}
            exec(compile(open(hook).read(), hook, "exec"), ns)
            rep.update(ns["make"](REPO, ROOT, tmp, env()))
        ov = os.path.join(tmp, "overlay.json")
        json.dump({"Replace": rep}, open(ov, "w"))
        out = os.path.join(tmp, "check.test")
        r = subprocess.run(["go", "test", "-c", "-vet=off", "-overlay", ov, "-tags", "ledger test_ledger_mock verif", "-o", out, "./verifmc/" + pkg],
                           cwd=REPO, env=env(), capture_output=True, text=True)
        if r.returncode != 0 or not os.path.exists(out):
            print("BUILD-ERROR\n" + r.stdout[-4000:] + r.stderr[-6000:])
            return 2
        if tier == "build":
            return 0
        e = env()
        e.update(VERIF_TIER=tier, VERIF_ROOT=ROOT)
        p = subprocess.run([out, "-test.run", "^Test" + pid + "$", "-test.timeout", "0"] + os.environ.get("VERIF_ARGS", "").split(), cwd=tmp, env=e)
        return p.returncode if p.returncode in (0, 1) else 2
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
sys.exit(main())
