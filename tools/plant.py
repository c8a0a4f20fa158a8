"""Try planted bugs in scratch copies:  plant.py [-t] [-c] ID...   (-t stable tests, -c only the property's check, default demo + check)

Each copy of /repo is bound over /repo in a private mount namespace, so nothing outside is touched."""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = sys.argv[1:]
tests = "-t" in args
extra = [a[3:] for a in args if a.startswith("-x=")]
ids = [a for a in args if not a.startswith("-")] or sorted(os.listdir(V + "/seeded"))
base = json.load(open("/opt/vp/BASELINE.json"))["stable"]


def ns(cp, cmd, timeout=1200):
    sh = f"mount --bind {cp}/repo /repo && mount --bind {cp}/work /opt/vp/work && mount --bind {cp}/ev {V}/evidence && mount --bind {cp}/rp {V}/build/replay && cd /repo && {cmd}"
    return subprocess.run(["unshare", "-m", "bash", "-c", sh], capture_output=True, text=True, timeout=timeout)


os.makedirs(V + "/build/replay", exist_ok=True)
os.makedirs(V + "/evidence", exist_ok=True)
for i in ids:
    d = f"{V}/seeded/{i}"
    meta = json.load(open(d + "/meta.json"))
    cp = tempfile.mkdtemp(prefix="plant-")
    try:
        subprocess.run(["cp", "-a", "/repo", cp + "/repo"], check=True)
        for x in ("work", "ev", "rp"):
            os.mkdir(f"{cp}/{x}")
        os.makedirs(cp + "/work/mpl")
        shutil.copytree(d, cp + "/demo")
        out = [i, meta["property"]]
        demo = f"bash {cp}/demo/demo.sh"
        r0 = ns(cp, demo)
        out.append(f"demo clean {r0.returncode}")
        a = subprocess.run(["git", "-C", cp + "/repo", "apply", d + "/patch.diff"], capture_output=True, text=True)
        if a.returncode:
            print(*out, "PATCH DOES NOT APPLY", a.stderr[:300])
            continue
        r1 = ns(cp, demo)
        out.append(f"demo patched {r1.returncode}")
        if r0.returncode:
            out.append((r0.stdout + r0.stderr)[-400:])
        if tests:
            ns(cp, f"bash /opt/vp/build.sh; bash /opt/vp/test.sh {cp}/out.json")
            try:
                o = json.load(open(cp + "/out.json"))
                bad = sorted(set(base) - set(o["passed"]))
            except OSError:
                bad = ["no test output"]
            out.append(f"stable failing {len(bad)} {bad[:2]}")
        for pid in [meta["property"]] + extra:
            c = ns(cp, f"VERIF_SEED=1 VERIF_TIER=quick /opt/venv/bin/python {V}/harness/run.py {pid}; exit $?")
            out.append(f"{pid} rc={c.returncode} {'CAUGHT' if c.returncode == 1 and 'VIOLATION property=' + pid in c.stdout else 'MISSED'} " + " | ".join(l.strip()[:160] for l in c.stdout.splitlines() if l.startswith("  clause"))[:400])
            if c.returncode == 2:
                out.append(c.stdout[-500:])
        print(*out, sep="  ", flush=True)
    finally:
        shutil.rmtree(cp, ignore_errors=True)
