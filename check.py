#!/usr/bin/env python3
"""Decides one property: check.py ID [--replay FILE]

Builds the harness from /repo's working tree, lets it exercise the
implementation, and has TLC judge what it recorded by the specification in
spec/.  Exit 0: held on everything explored; 1: violated; 2: no answer.
"""
import json, os, re, shutil, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from plan import PLAN

JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NOBODY, NOGROUP = 65534, 65533  # not the same


class Machinery(Exception):
    pass


def goenv():
    e = dict(os.environ)
    e.update(HOME=e.get("HOME", "/root"), GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOWORK="off",
             GOPATH="/root/go", GOMODCACHE="/root/go/pkg/mod", GOCACHE="/root/.cache/go-build")
    return e


def build(tmp):
    """worker, driver and command-line tool, from /repo as it is now"""
    jobs = [(HERE + "/harness", "./worker", "worker"), (HERE + "/harness", "./drive", "drive"), ("/repo", "./cmd", "lha")]
    for cwd, pkg, out in jobs:
        p = subprocess.run(["go", "build", "-buildvcs=false", "-o", f"{tmp}/{out}", pkg], cwd=cwd, env=goenv(),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode:
            raise Machinery(f"build of {pkg} failed:\n{p.stdout[-3000:]}")


def tlc(tmp, spec, cfg, env=None, args=(), workers=1, heap="3g", timeout=3000, running=None):
    """one run of TLC: (exit code, output)"""
    meta = tempfile.mkdtemp(dir=tmp)
    e = dict(os.environ)
    e.update(env or {})
    cmd = ["java", "-Xss64m", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC", "-Xmx" + heap, "-Djava.io.tmpdir=" + meta, "-cp", JARS,
           "tlc2.TLC", "-noGenerateSpecTE", "-workers", str(workers), "-metadir", meta, *args,
           "-config", cfg + ".cfg", spec + ".tla"]
    p = subprocess.Popen(cmd, cwd=HERE + "/spec", env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    timer = threading.Timer(timeout, p.kill)
    timer.start()
    out, rc = [], None
    try:
        if running is not None:
            running.append(p)
        for line in p.stdout:
            out.append(line)
            if line.startswith('"BAD|'):  # what is wrong is known: TLC need not find the way there again
                rc = 12
                p.kill()
        p.wait()
        return (p.returncode if rc is None else rc), "".join(out)
    finally:
        timer.cancel()
        shutil.rmtree(meta, ignore_errors=True)


def numbers(out):
    m = re.findall(r"^(\d+) states generated, (\d+) distinct states found, (\d+) states left", out, re.M)
    return (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)


def last_state(out):
    """the case found wrong, and what is wrong"""
    m = re.search(r'^"BAD\|([^|]*)\|(.*)"$', out, re.M)
    return dict(case=m.group(1), bad=m.group(2)) if m else {}


def simulate(tmp, g, seed, tier):
    """behaviours of the specification, as a file of JSON lines"""
    out = f"{tmp}/{g['name']}.ndjson"
    n = g["thorough"] if tier == "thorough" else g["quick"]
    args = ["-simulate", f"num={n}", "-depth", str(g["depth"]), "-seed", str(seed)]
    rc, txt = tlc(tmp, g["spec"], g["cfg"], {"OUT": out}, args, timeout=600)
    if rc != 0 or not os.path.exists(out):
        raise Machinery(f"simulation of {g['spec']} failed ({rc}):\n{txt[-3000:]}")
    os.chmod(out, 0o644)
    return out


def run(pid, replay=None):
    t0 = time.time()
    plan = PLAN[pid]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    only = ""
    if replay:
        r = json.load(open(replay))
        seed, tier, only = r["seed"], r["tier"], r.get("only", "")
    tmp = tempfile.mkdtemp(prefix="lhaverif.")
    os.chmod(tmp, 0o755)
    cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "evaluations": 0, "samples": []}
    assumptions = list(plan.get("assumptions", []))
    violation = None
    try:
        build(tmp)
        # the specification on its own: the property as a theorem of the model, within its bounds
        models = []
        for m in plan.get("models", []):
            if m.get("tier", tier) != tier:
                continue
            rc, out = tlc(tmp, m["spec"], m["cfg"], workers=8, heap="8g")
            if rc not in m.get("expect", (0,)):
                raise Machinery(f"model {m['cfg']} does not check ({rc}):\n{out[-3000:]}")
            gen, dist = numbers(out)
            cov["states"] += dist
            cov["transitions"] += gen
            models.append({"model": m["cfg"], "states": dist, "transitions": gen})
        if models:
            cov["models"] = models
        # behaviours of the specification to be replayed
        inputs = []
        for g in plan.get("generate", []):
            inputs.append(simulate(tmp, g, seed, tier))
        # the implementation
        scratch, traces = f"{tmp}/scratch", f"{tmp}/traces"
        user = {} if os.getuid() != 0 else dict(user=NOBODY, group=NOGROUP, extra_groups=[])
        for d in (scratch, traces):
            os.mkdir(d)
            if user:
                os.chown(d, NOBODY, NOGROUP)
        e = {k: v for k, v in os.environ.items() if k in ("PATH", "LANG", "LC_ALL")}
        e.update(HOME=scratch, TMPDIR=scratch, TZ=plan.get("tz", "UTC"), VERIF_REPO="/repo")
        cmd = [f"{tmp}/drive", "-prop", pid, "-worker", f"{tmp}/worker", "-cli", f"{tmp}/lha", "-scratch", scratch,
               "-out", traces, "-seed", str(seed), "-tier", tier, "-input", ",".join(inputs)]
        if only:
            cmd += ["-only", only]
        p = subprocess.run(cmd, cwd=scratch, env=e, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True, errors="replace", **user)
        if p.returncode:
            raise Machinery(f"driver failed ({p.returncode}):\n{p.stdout[-3000:]}")
        stats = json.load(open(f"{traces}/stats.json"))
        cov["evaluations"] = stats["Evaluations"]
        cov["distinct_nontrivial"] = stats["Distinct"]
        cov["rule"] = stats["Rule"]
        cov["samples"] = stats["Samples"] or []
        cov["counts"] = stats["Counts"]
        assumptions += stats.get("Assumptions") or []
        if only and stats["Traces"] == 0:
            raise Machinery(f"no case {only}")
        # and the specification as judge
        todo = []
        for t in plan["traces"]:
            for f in stats["Shards"] or []:
                if os.path.basename(f).startswith(t["name"] + "."):
                    todo.append((t, f))
        if not todo:
            raise Machinery("nothing was recorded")

        running, found = [], threading.Event()

        def judge(x):
            t, f = x
            if found.is_set():
                return x, (None, "")
            rc, out = tlc(tmp, t["spec"], t["cfg"], {"CASES": f}, running=running)
            if found.is_set():
                return x, (rc if rc == 12 else None, out)
            if rc == 12 and last_state(out).get("bad", "harness").split(":")[0] not in t.get("own", []):
                found.set()  # one is enough
                for p in running:
                    p.kill()
            return x, (rc, out)
        trouble = []
        with ThreadPoolExecutor(8) as ex:
            for (t, f), (rc, out) in ex.map(judge, todo):
                gen, dist = numbers(out)
                cov["states"] += dist
                cov["transitions"] += gen
                if rc == 0:
                    cov["traces_validated_against_impl"] += sum(1 for _ in open(f))
                    continue
                if rc is None:  # stopped
                    continue
                st = last_state(out)
                if rc != 12 or "bad" not in st:
                    trouble.append(f"TLC failed on {os.path.basename(f)} ({rc}):\n{out[-2500:]}")
                elif st["bad"].split(":")[0] in t.get("own", []):
                    trouble.append(f"the harness and the specification disagree: case {st.get('case')}: {st['bad']}")
                elif violation is None:
                    violation = dict(case=st.get("case", ""), what=st["bad"], trace=f)
        if trouble and not violation:
            raise Machinery(trouble[0])
        cov["checker_cmd"] = f"TLC on spec/{plan['traces'][0]['spec']}.tla with {plan['traces'][0]['cfg']}.cfg"
        path = None
        if violation:
            os.makedirs(f"{HERE}/replay", exist_ok=True)
            path = f"{HERE}/replay/{pid}.json"
            case = None
            for line in open(violation["trace"]):
                k = json.loads(line)
                if k.get("id") == violation["case"]:
                    case = k
            json.dump(dict(property=pid, seed=seed, tier=tier, only=violation["case"].split("/")[0], what=violation["what"],
                           case=case), open(path, "w"))
        if not replay:
            os.makedirs(f"{HERE}/evidence", exist_ok=True)
            ev = dict(property=pid, tier=tier, seed=seed, level=plan.get("level", "model_checking"), coverage=cov,
                      assumptions=assumptions, wall_s=round(time.time() - t0, 2), violations=1 if violation else 0)
            with open(f"{HERE}/evidence/{pid}.json", "w") as f:
                json.dump(ev, f, indent=1)
        if violation:
            print(f"case {violation['case']}: {violation['what']}")
            print(f"VIOLATION property={pid} replay={path}")
            return 1
        print(f"{pid}: held on {cov['evaluations']} cases, {cov['traces_validated_against_impl']} traces accepted by the "
              f"specification, {cov['states']} states, {time.time() - t0:.1f} s")
        return 0
    except Machinery as x:
        print(f"NO ANSWER property={pid}: {x}")
        return 2
    finally:
        subprocess.run(["chmod", "-R", "u+rwx", tmp], stderr=subprocess.DEVNULL)
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == "__main__":
    a = sys.argv[1:]
    rp = None
    if "--replay" in a:
        i = a.index("--replay")
        rp = a[i + 1]
        del a[i:i + 2]
    sys.exit(run(a[0], rp))
