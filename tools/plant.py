#!/usr/bin/env python3
"""Confirms planted changes (seeded/<id>): plant.py [ID...]

In a scratch copy of /repo: the patch applies, the tree builds, the stable tests
pass, and the demonstration passes without the change and fails with it.
With --run the checks are also run against it in /repo itself, which is restored.
"""
import json, os, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = {"HOME": "/root", "PATH": os.environ["PATH"], "LANG": "C.UTF-8"}
STABLE = ["TestCalcCrc", "TestCompress", "TestDecompress", "TestDecompressBytes", "TestInformationHeader", "TestListHeader"]

def sh(cmd, cwd, **k):
    e = dict(ENV, GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOWORK="off", GOPATH="/root/go",
             GOMODCACHE="/root/go/pkg/mod", GOCACHE="/root/.cache/go-build")
    return subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=300, **k)

def confirm(i):
    d = f"{HERE}/seeded/{i}"
    t = tempfile.mkdtemp(prefix="plant.")
    try:
        r = t + "/repo"
        subprocess.run(["cp", "-a", "/repo", r], check=True)
        a = t + "/demo"
        os.mkdir(a)
        for f in os.listdir(d):
            if not f.endswith((".diff", ".patch")) and f != "meta.json":
                shutil.copy(f"{d}/{f}", a)
        p = sh(["bash", a + "/demo.sh"], r)
        if p.returncode:
            return "demo fails without the change:\n" + p.stdout[-800:]
        p = sh(["git", "apply", d + "/patch.diff"], r)
        if p.returncode:
            return "does not apply: " + p.stdout
        p = sh(["go", "build", "./..."], r)
        if p.returncode:
            return "does not build: " + p.stdout
        p = sh(["go", "test", "-vet=off", "-run", "^(" + "|".join(STABLE) + ")$", "."], r)
        if p.returncode:
            return "tests fail: " + p.stdout[-800:]
        p = sh(["bash", a + "/demo.sh"], r)
        if p.returncode == 0:
            return "demo passes with the change"
        return ""
    finally:
        shutil.rmtree(t, ignore_errors=True)

def against(i):
    m = json.load(open(f"{HERE}/seeded/{i}/meta.json"))
    subprocess.run(["git", "-C", "/repo", "apply", f"{HERE}/seeded/{i}/patch.diff"], check=True)
    try:
        p = subprocess.run(["python3", HERE + "/check.py", m["property"]], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd=HERE)
        return f"{m['property']} exit {p.returncode}: " + p.stdout.strip()[:200].replace("\n", " | ")
    finally:
        subprocess.run(["git", "-C", "/repo", "checkout", "-q", "--", "."], check=True)

a = sys.argv[1:]
run = "--run" in a
ids = [x for x in a if not x.startswith("-")] or sorted(os.listdir(HERE + "/seeded"))
for i in ids:
    w = "" if "--only-run" in a else confirm(i)
    print(i, w or "confirmed", flush=True)
    if run and not w:
        print("   ", against(i), flush=True)
