"""Shared machinery: run TLC, run drivers against the real code, replay traces in TLC, report."""
import glob, hashlib, importlib, json, math, multiprocessing as mp, os, re, shutil, signal, subprocess, sys, tempfile, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
BUILD = os.path.join(VERIF, "build")
TLAJAR = "/opt/veriftools/tla/tla2tools.jar"
CMJAR = "/opt/veriftools/tla/CommunityModules-deps.jar"
NPROC = int(os.environ.get("VERIF_NPROC", "8"))


class MachineError(Exception):
    pass


# ---------------------------------------------------------------- encoding
def enc(x):
    import numpy as np

    if x is None or isinstance(x, (str, bool)):
        return x
    if isinstance(x, (np.bool_,)):
        return bool(x)
    if isinstance(x, (int, np.integer)):
        x = int(x)
        return x if abs(x) < 2**31 - 1 else repr(float(x))
    if isinstance(x, (float, np.floating)):
        x = float(x)
        if math.isnan(x):
            return "NaN"
        if math.isinf(x):
            return "Infinity" if x > 0 else "-Infinity"
        return repr(x)
    if isinstance(x, np.ndarray):
        return enc(x.tolist())
    if isinstance(x, (list, tuple)):
        return [enc(v) for v in x]
    if isinstance(x, dict):
        return {str(k): enc(v) for k, v in x.items()}
    if isinstance(x, (set, frozenset)):
        return [enc(v) for v in sorted(x)]
    if isinstance(x, complex):
        return enc(x.real)
    raise TypeError(f"cannot encode {type(x)}")


# ---------------------------------------------------------------- TLC
def classes_dir():
    """Compile the F64 override (and any other override) into build/cls; safe under concurrency."""
    srcs = sorted(glob.glob(os.path.join(SPEC, "*.java")))
    h = hashlib.sha256()
    for s in srcs:
        h.update(open(s, "rb").read())
    out = os.path.join(BUILD, "cls-" + h.hexdigest()[:16])
    if not os.path.isdir(out):
        os.makedirs(BUILD, exist_ok=True)
        tmp = tempfile.mkdtemp(dir=BUILD)
        r = subprocess.run(["javac", "-cp", TLAJAR, "-d", tmp] + srcs, capture_output=True, text=True)
        if r.returncode:
            raise MachineError("javac failed:\n" + r.stdout + r.stderr)
        try:
            os.rename(tmp, out)
        except OSError:
            shutil.rmtree(tmp, ignore_errors=True)
    return out


def tlc(module, cfg, env=None, workers=1, heap="3g", timeout=800, extra=(), scratch=None):
    """Run TLC on SPEC/module.tla with SPEC/cfg.  Returns dict(ok, states, distinct, emitted, fails, out)."""
    cls = classes_dir()
    meta = tempfile.mkdtemp(prefix="tlc-", dir=scratch)
    e = dict(os.environ)
    e.pop("JAVA_TOOL_OPTIONS", None)
    e.update(env or {})
    cmd = ["timeout", str(int(timeout)), "java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-Xss512m", "-Xmx" + heap,
           "-Djava.io.tmpdir=" + meta,
           "-cp", cls + ":" + TLAJAR + ":" + CMJAR, "tlc2.TLC", "-workers", str(workers), "-noGenerateSpecTE",
           "-metadir", meta, "-config", cfg, *extra, module + ".tla"]
    t0 = time.time()
    r = subprocess.run(cmd, cwd=SPEC, env=e, capture_output=True, text=True)
    shutil.rmtree(meta, ignore_errors=True)
    out = r.stdout
    res = dict(rc=r.returncode, out=out, wall=time.time() - t0, emitted=[], fails=[], states=0, distinct=0, depth=0)
    for line in out.splitlines():
        if line.startswith('"@@'):
            res["emitted"].append(json.loads(json.loads(line)[2:]))
        elif line.startswith('"@F'):
            res["fails"].append(json.loads(json.loads(line)[2:]))
        else:
            m = re.match(r"(\d+) states generated, (\d+) distinct states found", line)
            if m:
                res["states"], res["distinct"] = int(m[1]), int(m[2])
            m = re.match(r"The depth of the complete state graph search is (\d+)", line)
            if m:
                res["depth"] = int(m[1])
    res["ok"] = r.returncode == 0 and ("No error has been found" in out)
    if not res["ok"]:
        keep = [l for l in out.splitlines() if not l.startswith(('"@@', '"@F', "Loading ", "Parsing", "Semantic", "Linting"))]
        res["err"] = "\n".join(keep)[-3000:] + "\n" + r.stderr[-2000:]
    return res


# ---------------------------------------------------------------- driver side
class Timeout(Exception):
    pass


class Rec:
    """Recorder of one session: events are appended in order."""

    def __init__(self, sid):
        self.sid, self.events = sid, []

    def __call__(self, ev, **kw):
        d = {"sid": self.sid, "ev": ev}
        for k, v in kw.items():
            d[k] = enc(v)
        self.events.append(d)


def _init_worker(base):
    d = tempfile.mkdtemp(dir=base)
    os.chdir(d)
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    os.dup2(devnull, 2)
    import warnings

    warnings.simplefilter("ignore")


def _alarm(*a):
    raise Timeout()


def _run_job(args):
    modname, sid, job, limit = args
    mod = importlib.import_module("props." + modname)
    rec = Rec(sid)
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(limit)
    status = "ok"
    t0 = time.time()
    try:
        mod.execute(job, rec)
    except Timeout:
        status = "timeout"
    except Exception:
        status = "driver: " + traceback.format_exc()
    finally:
        signal.alarm(0)
    return sid, status, [json.dumps(e) for e in rec.events], time.time() - t0


def run_jobs(modname, joblist, scratch, limit=240, fresh=False, nproc=NPROC):
    """joblist: [(sid, job)].  Returns {sid: (status, lines, wall)} in joblist order."""
    base = tempfile.mkdtemp(dir=scratch)
    ctx = mp.get_context("fork")
    res = {}
    args = [(modname, s, j, limit) for s, j in joblist]
    with ctx.Pool(min(nproc, max(1, len(args))), _init_worker, (base,), maxtasksperchild=1 if fresh else None) as pool:
        cs = 1 if fresh else max(1, min(8, len(args) // (nproc * 4)))
        for sid, status, lines, wall in pool.imap_unordered(_run_job, args, chunksize=cs):
            res[sid] = (status, lines, wall)
    shutil.rmtree(base, ignore_errors=True)
    return {s: res[s] for s, _ in joblist}


def replay(trace_module, sessions, scratch, cfg=None, shards=NPROC, heap="3g", env=None):
    """sessions: {sid: [json lines]}.  Replays them through SPEC/trace_module.  Returns (fails, nlines, states)."""
    sids = [s for s in sessions if sessions[s]]
    # balanced by number of bytes
    k = max(1, min(shards, len(sids)))
    bins, load = [[] for _ in range(k)], [0] * k
    for s in sorted(sids, key=lambda s: -sum(map(len, sessions[s]))):
        i = load.index(min(load))
        bins[i].append(s)
        load[i] += sum(map(len, sessions[s])) + 50
    procs = []
    from concurrent.futures import ThreadPoolExecutor

    def one(i):
        path = os.path.join(scratch, f"trace-{trace_module}-{i}.ndjson")
        n = 0
        with open(path, "w") as f:
            for s in bins[i]:
                for l in sessions[s]:
                    f.write(l + "\n")
                    n += 1
        e = {"TRACE": path}
        e.update(env or {})
        r = tlc(trace_module, cfg or trace_module + ".cfg", env=e, heap=heap, scratch=scratch)
        os.remove(path)
        return n, r

    with ThreadPoolExecutor(k) as ex:
        outs = list(ex.map(one, range(k)))
    fails, nl, st = [], 0, 0
    for n, r in outs:
        if not r["ok"]:
            raise MachineError(f"trace replay {trace_module} did not complete:\n" + r["err"])
        if r["distinct"] != n + 1:
            raise MachineError(f"trace replay {trace_module}: {n} lines but {r['distinct']} states\n" + r["out"][-3000:])
        fails += r["fails"]
        nl += n
        st += r["states"]
    return fails, nl, st


# ---------------------------------------------------------------- check runner
def load_known(pid):
    path = os.path.join(VERIF, "known_findings.jsonl")
    out = []
    if os.path.exists(path):
        for l in open(path):
            l = l.strip()
            if l and not l.startswith("fixed:") and not l.startswith("#"):
                d = json.loads(l)
                if d["property"] == pid:
                    out.append(d)
    return out


def match_known(known, f):
    for k in known:
        if re.search(k["sid"], f["sid"]) and re.search(k["clause"], f["clause"]):
            return k
    return None


def main(pid, only=None):
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    modname = pid.lower()
    scratch = tempfile.mkdtemp(prefix=f"verif-{pid}-")
    try:
        return _main(pid, modname, tier, seed, scratch, t0, only)
    except MachineError as e:
        print("CHECK-ERROR", pid, str(e))
        return 2
    except Exception:
        print("CHECK-ERROR", pid)
        traceback.print_exc(file=sys.stdout)
        return 2
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def _main(pid, modname, tier, seed, scratch, t0, only):
    os.chdir(scratch)
    mod = importlib.import_module("props." + modname)
    cov = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[])
    # 1. exhaustive exploration of the abstract model
    emitted, mcinfo = [], []
    mc = mod.mc(tier, seed) if hasattr(mod, "mc") else []
    for m in mc:
        module, cfg = m["module"], m.get("cfg", m["module"] + ".cfg")
        r = tlc(module, cfg, env=m.get("env"), workers=m.get("workers", 1), heap=m.get("heap", "6g"), scratch=scratch,
                timeout=m.get("timeout", 600), extra=m.get("extra", ()))
        if not r["ok"]:
            raise MachineError(f"model checking {module}/{cfg} failed (the model itself violates its invariants or does not run):\n" + r["err"])
        cov["states"] += r["distinct"]
        cov["transitions"] += r["states"]
        mcinfo.append(dict(module=module, cfg=cfg, distinct_states=r["distinct"], states_generated=r["states"], depth=r["depth"], emitted=len(r["emitted"]), wall_s=round(r["wall"], 2)))
        emitted.append(r["emitted"])
    # 2. drive the real code
    t1 = time.time()
    if hasattr(mod, "preload"):
        mod.preload()
    jl = mod.jobs(emitted, tier, seed)
    ids = [s for s, _ in jl]
    if len(set(ids)) != len(ids):
        raise MachineError("duplicate session ids")
    if only:
        jl = [x for x in jl if re.search(only, x[0])]
    res = run_jobs(modname, jl, scratch, limit=getattr(mod, "LIMIT", 240), fresh=getattr(mod, "FRESH", False), nproc=getattr(mod, "NPROC", NPROC))
    bad = {s: v[0] for s, v in res.items() if v[0].startswith("driver")}
    if bad:
        s = next(iter(bad))
        raise MachineError(f"{len(bad)} driver errors, first in {s}:\n{bad[s]}")
    tmo = [s for s, v in res.items() if v[0] == "timeout"]
    if len(tmo) > 0.2 * len(res):
        raise MachineError(f"{len(tmo)} of {len(res)} driver sessions timed out")
    t2 = time.time()
    # 3. replay what the real code did through the specification
    sessions = {s: v[1] for s, v in res.items() if v[0] == "ok"}
    fails, nlines, tstates = [], 0, 0
    groups = {}
    default = mod.TRACE if hasattr(mod, "TRACE") else None
    for s in sessions:
        g = mod.trace_of(s) if hasattr(mod, "trace_of") else default
        groups.setdefault(g, {})[s] = sessions[s]
    for g, ss in groups.items():
        f, n, st = replay(g, ss, scratch, heap=getattr(mod, "HEAP", "3g"), env=getattr(mod, "ENV", None))
        fails += f
        nlines += n
        tstates += st
    t3 = time.time()
    cov["states"] += tstates
    cov["transitions"] += nlines
    cov["traces_validated_against_impl"] = sum(1 for s in sessions if sessions[s])
    cov["trace_events"] = nlines
    cov["model_runs"] = mcinfo
    cov["timeouts"] = len(tmo)
    kinds = {}
    for sid, lines in sessions.items():
        for ln in lines:
            k = (sid.rsplit("-", 1)[0], json.loads(ln)["ev"])
            kinds[k] = kinds.get(k, 0) + 1
    cov["events"] = {f"{a}: {b}": n for (a, b), n in sorted(kinds.items())}
    if os.environ.get("VERIF_VERBOSE"):
        for k, n in cov["events"].items():
            print("   ", k, n)
    cov["phase_wall_s"] = dict(model=round(t1 - t0, 1), drive=round(t2 - t1, 1), replay=round(t3 - t2, 1))
    if hasattr(mod, "coverage"):
        cov.update(mod.coverage(sessions))
    for s in list(sessions)[:2] + list(sessions)[-1:]:
        if sessions[s]:
            l = sessions[s][0]
            cov["samples"].append(dict(session=s, first_event=l[:600]))
    # 4. verdict
    known = load_known(pid)
    new, seen = [], {}
    for f in fails:
        k = match_known(known, f)
        if k:
            seen.setdefault(k["what"], []).append(f)
        else:
            new.append(f)
    for k in known:
        if k["what"] in seen:
            print(f"KNOWN-FINDING: property={pid} {k['what']}")
    cov["violating_clauses"] = sorted({f["clause"] for f in new})
    ev = dict(property=pid, tier=tier, seed=seed, level="model_checking", coverage=cov,
              assumptions=getattr(mod, "ASSUMPTIONS", ["numerical comparison tolerances stated in the specification", "IEEE-754 arithmetic of the F64 TLC override"]),
              wall_s=round(time.time() - t0, 2), violations=len(new))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as fo:
        json.dump(ev, fo, indent=1)
    if os.environ.get("VERIF_DUMP"):
        with open(os.environ["VERIF_DUMP"], "w") as fo:
            json.dump(fails, fo)
    if only:
        for f in fails:
            print("  ", f["sid"], f["clause"], str(f.get("detail"))[:300])
    print(f"{pid} {tier} seed={seed}: {cov['states']} states, {len(sessions)} sessions, {nlines} trace events, {len(new)} violating clauses, "
          f"{len(fails) - len(new)} known, timeouts {len(tmo)}; {ev['wall_s']} s {cov['phase_wall_s']}")
    if new:
        rp = os.path.join(BUILD, "replay")
        os.makedirs(rp, exist_ok=True)
        path = os.path.join(rp, pid + ".json")
        jd = dict(jl)
        vs = {}
        for f in new:
            vs.setdefault(f["sid"], []).append(f)
        with open(path, "w") as fo:
            json.dump(dict(property=pid, seed=seed, tier=tier,
                           how=f"VERIF_SEED={seed} VERIF_TIER={tier} {sys.executable} {VERIF}/harness/run.py {pid} --only '^<session>$'",
                           violations=[dict(session=s, failures=fs[:20], job=enc_safe(jd.get(s)), events=[l[:4000] for l in sessions[s][:30]]) for s, fs in list(vs.items())[:10]]), fo, indent=1)
        shown = {}
        for f in new:
            shown.setdefault(f["clause"], f)
        for c, f in list(shown.items())[:8]:
            print(f"  clause {c} in {f['sid']}: {str(f.get('detail'))[:400]}")
        print(f"VIOLATION property={pid} replay={path}")
        return 1
    return 0


def enc_safe(x):
    try:
        return json.loads(json.dumps(x, default=str))
    except Exception:
        return str(x)
