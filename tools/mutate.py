"""Development aid: plants one random small change at a time in a scratch copy of the package and runs checks on it.
   mutate.py N SEED WORKERS PID[,PID...] FILE[:FUNCREGEX] ...      (files under openconcept/)
A first pass runs a sample of the check's sessions, survivors get all of them.  Never touches /repo."""
import ast, json, os, random, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
UN = dict(kg="lb", m="ft", N="lbf", kW="W", W="kW", deg="rad", rad="deg", K="degR", s="min", Pa="psi", lb="kg", ft="m", lbf="N", hp="kW", h="s", J="kJ")
UN.update({"m/s": "kn", "kn": "m/s", "kg/s": "lb/s", "m**2": "ft**2", "ft**2": "m**2", "kg/m**3": "slug/ft**3", "N*m": "lbf*ft", "J/kg/K": "kJ/kg/K", "W/m/K": "kW/m/K", "W/kg": "kW/kg", "W*h/kg": "kJ/kg", "lb/h": "kg/s", "ft/s": "m/s", "USD": None, "m**3": "ft**3", "in": "cm", "mm": "m", "1/s": "1/min", "rpm": "rad/s"})


def mutants(src, func):
    """[(start, end, new, what)] in byte offsets"""
    tree = ast.parse(src)
    lines = [0]
    bs = src.encode()
    for l in bs.split(b"\n"):
        lines.append(lines[-1] + len(l) + 1)
    off = lambda n: (lines[n.lineno - 1] + n.col_offset, lines[n.end_lineno - 1] + n.end_col_offset)
    seg = lambda n: bs[slice(*off(n))].decode()
    out = []

    def between(a, b, old, new):
        s, t = off(a)[1], off(b)[0]
        mid = bs[s:t].decode()
        i = mid.find(old)
        if i >= 0 and "#" not in mid[:i]:
            out.append((s + i, s + i + len(old), new, cur[0]))

    cur = [None]

    def visit(n, keys, quiet):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            old = cur[0]
            cur[0] = (old + "." if old else "") + n.name
            body = n.body
            if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant) and isinstance(body[0].value.value, str):
                body = body[1:]
            for b in body:
                visit(b, keys, quiet)
            cur[0] = old
            return
        if isinstance(n, (ast.Raise, ast.Import, ast.ImportFrom, ast.Assert, ast.Global)):
            return
        if isinstance(n, ast.If) and ("plot" in seg(n.test) or "__name__" in seg(n.test)):
            return
        if isinstance(n, ast.Call):
            f = seg(n.func)
            if f in ("print", "warnings.warn", "super") or "plt." in f or f.endswith("options.declare") or "warn" in f:
                return
            sw = {"np.cos": "np.sin", "np.sin": "np.cos", "np.maximum": "np.minimum", "np.minimum": "np.maximum", "np.max": "np.min", "np.min": "np.max", "np.zeros": "np.ones", "np.ones": "np.zeros", "np.tan": "np.sin", "np.exp": "np.expm1", "np.sqrt": "np.cbrt"}
            if f in sw:
                out.append((*off(n.func), sw[f], cur[0]))
            names = [a for a in n.args if isinstance(a, (ast.Name, ast.Attribute))]
            if len(names) >= 2 and seg(names[0]) != seg(names[1]):
                a, b = names[0], names[1]
                out.append((off(a)[0], off(b)[1], seg(b) + bs[off(a)[1]:off(b)[0]].decode() + seg(a), cur[0]))
        if isinstance(n, ast.keyword):
            if n.arg in ("desc", "val", "lower", "upper", "shape", "default", "name", "types", "title", "ref", "allow_none", "copy_shape", "ref0", "res_ref"):
                return
            if n.arg == "units" and isinstance(n.value, ast.Constant) and isinstance(n.value.value, str):
                v = UN.get(n.value.value)
                if v:
                    out.append((*off(n.value), repr(v), cur[0]))
                return
        if isinstance(n, ast.BinOp):
            ops = {ast.Add: ("+", "-"), ast.Sub: ("-", "+"), ast.Mult: ("*", "/"), ast.Div: ("/", "*"), ast.Pow: ("**", "*")}
            if type(n.op) in ops and not (isinstance(n.op, ast.Mod)) and not (isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)) and not (isinstance(n.right, ast.Constant) and isinstance(n.right.value, str)):
                between(n.left, n.right, *ops[type(n.op)])
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            ops = {ast.Lt: ("<", "<="), ast.LtE: ("<=", "<"), ast.Gt: (">", ">="), ast.GtE: (">=", ">"), ast.Eq: ("==", "!="), ast.NotEq: ("!=", "==")}
            if type(n.ops[0]) in ops:
                between(n.left, n.comparators[0], *ops[type(n.ops[0])])
        if isinstance(n, (ast.If, ast.IfExp)) :
            out.append((*off(n.test), "not (" + seg(n.test) + ")", cur[0]))
        if isinstance(n, ast.BoolOp):
            a, b = ("and", "or") if isinstance(n.op, ast.And) else ("or", "and")
            between(n.values[0], n.values[1], a, b)
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
            out.append((*off(n), seg(n.operand), cur[0]))
        if isinstance(n, ast.Constant):
            v = n.value
            if isinstance(v, bool):
                out.append((*off(n), str(not v), cur[0]))
            elif isinstance(v, float):
                out.append((*off(n), repr(v * 1.02 if v else 0.01), cur[0]))
            elif isinstance(v, int):
                out.append((*off(n), str(v + 1), cur[0]))
        if isinstance(n, ast.Subscript):
            s = seg(n.slice)
            m = {":-1": "1:", "1:": ":-1", "0": "-1", "-1": "0", ":, 0": ":, -1", "0, :": "-1, :"}.get(s)
            if m:
                out.append((*off(n.slice), m, cur[0]))
            if isinstance(n.value, ast.Name) and n.value.id == "inputs" and isinstance(n.slice, ast.Constant):
                keys.append((n, n.slice.value, cur[0]))
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and re.search(r"set_input_defaults|\.connect\(|declare_partials", seg(n)):
            out.append((*off(n), "pass", cur[0]))
        if isinstance(n, (ast.Assign, ast.AugAssign)) and cur[0] and re.search("compute|linearize|apply", cur[0]):
            t = n.targets[0] if isinstance(n, ast.Assign) else n.target
            if isinstance(n, ast.AugAssign) and type(n.op) in (ast.Add, ast.Sub, ast.Mult, ast.Div):
                o = {ast.Add: ("+=", "-="), ast.Sub: ("-=", "+="), ast.Mult: ("*=", "/="), ast.Div: ("/=", "*=")}[type(n.op)]
                between(t, n.value, *o)
        for c in ast.iter_child_nodes(n):
            visit(c, keys, quiet)

    keys = []
    for n in tree.body:
        visit(n, keys, False)
    for n, k, w in keys:
        others = sorted({q for _, q, v in keys if q != k and v == w})
        if others:
            o = random.choice(others)
            out.append((*off(n.slice), repr(o), w))
    return [m for m in out if m[3] and (not func or re.search(func, m[3]))]


ONE = r'''
import sys, os, json, random
os.environ.update(PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1", MPLBACKEND="Agg", OPENMDAO_REPORTS="0", OPENMDAO_USE_MPI="0", TESTFLO_RUNNING="1")
sys.dont_write_bytecode = True
copy, V, pid, nproc, frac = sys.argv[1:6]
sys.path.insert(0, V + "/harness"); sys.path.insert(0, copy)
import warnings; warnings.simplefilter("ignore")
import importlib, tempfile, shutil, pickle
import openconcept
assert openconcept.__path__[0].startswith(copy), openconcept.__path__
import vlib
nproc = int(nproc); frac = float(frac)
mod = importlib.import_module("props." + pid.lower())
cache = "/tmp/mt/mc-%s.pkl" % pid
scratch = tempfile.mkdtemp(prefix="mut-")
os.chdir(scratch)
try:
    if os.path.exists(cache):
        emitted = pickle.load(open(cache, "rb"))
    else:
        emitted = [vlib.tlc(m["module"], m["cfg"], env=m.get("env"), workers=1, extra=m.get("extra", ()), heap=m.get("heap", "6g"), timeout=m.get("timeout", 600), scratch=scratch)["emitted"] for m in (mod.mc("quick", 1) if hasattr(mod, "mc") else [])]
        pickle.dump(emitted, open(cache, "wb"))
    try:
        if hasattr(mod, "preload"): mod.preload()
    except Exception as ex:
        print("RESULT invalid", repr(ex)[:200]); sys.exit()
    jl = mod.jobs(emitted, "quick", int(os.environ.get("SEED", "1")))
    rr = random.Random(5); perm = list(range(len(jl))); rr.shuffle(perm)
    k = max(8, int(frac * len(jl)))
    if pid in ("C11", "C12", "C13"):
        import registry as R
        m = os.environ["MUTFILE"].replace("/", ".")[:-3]
        own = [i for i in perm if R.BY[jl[i][1]["name"]].mod == m]
        perm = own + [i for i in perm if i not in set(own)]
        k = max(8, len(own))
    known = vlib.load_known(pid)
    for part in (perm[:k], perm[k:]):
        if not part: continue
        js = [jl[i] for i in sorted(part)]
        res = vlib.run_jobs(pid.lower(), js, scratch, limit=min(60, getattr(mod, "LIMIT", 240)), fresh=getattr(mod, "FRESH", False), nproc=nproc)
        bad = [v[0] for v in res.values() if v[0].startswith("driver")]
        if bad: print("RESULT driver", bad[0][-200:].replace("\n", " ")); sys.exit()
        nt = sum(v[0] == "timeout" for v in res.values())
        ss = {s: v[1] for s, v in res.items() if v[0] == "ok"}
        groups = {}
        for s in ss:
            groups.setdefault(mod.trace_of(s) if hasattr(mod, "trace_of") else mod.TRACE, {})[s] = ss[s]
        fails = []
        for g, q in groups.items():
            f, n, st = vlib.replay(g, q, scratch, shards=nproc, heap=getattr(mod, "HEAP", "3g"), env=getattr(mod, "ENV", None))
            fails += [x for x in f if not vlib.match_known(known, x)]
        if fails: print("RESULT killed", len(fails), fails[0]["clause"][:80], str(fails[0].get("detail"))[:120]); sys.exit()
        if nt > 0.2 * len(js): print("RESULT timeouts", nt); sys.exit()
    print("RESULT survived", nt)
finally:
    shutil.rmtree(scratch, ignore_errors=True)
'''


def main():
    n, seed, workers = map(int, sys.argv[1:4])
    pids = sys.argv[4].split(",")
    os.makedirs("/tmp/mt", exist_ok=True)
    open("/tmp/mt/one.py", "w").write(ONE)
    random.seed(seed)
    todo = []
    for a in sys.argv[5:]:
        f, _, fn = a.partition(":")
        src = open("/repo/openconcept/" + f).read()
        ms = mutants(src, fn)
        todo += [(f, src, m) for m in ms]
    print(len(todo), "possible changes", flush=True)
    random.shuffle(todo)
    per = max(1, 8 // workers)

    def run(k):
        f, src, (s, e, new, where) = todo[k]
        bs = src.encode()
        m = bs[:s] + new.encode() + bs[e:]
        line = bs[:s].count(b"\n") + 1
        old = src.split("\n")[line - 1].strip()
        try:
            ast.parse(m)
        except SyntaxError:
            return None
        newl = m.decode().split("\n")[line - 1].strip()
        c = tempfile.mkdtemp(prefix="oc-", dir="/tmp/mt")
        try:
            subprocess.run(["cp", "-as", "/repo/openconcept", c], check=True)
            t = f"{c}/openconcept/{f}"
            os.unlink(t)
            open(t, "wb").write(m)
            env = {k: v for k, v in os.environ.items() if k != "PYTHONPATH"}
            env["PYTHONHASHSEED"], env["MUTFILE"] = "0", f
            hist = []
            ps = ["C11"] if re.search("partials|linearize|deriv", where + old) and "C11" in pids else [x for x in pids if x != "C11"] if len(pids) > 1 else pids
            for pid in ps:
                t0 = time.time()
                try:
                    q = subprocess.run(["/opt/venv/bin/python", "/tmp/mt/one.py", c, os.path.dirname(HERE), pid, str(per), os.environ.get("FRAC", "0.12")], env=env, capture_output=True, text=True, timeout=400)
                    r = [l for l in q.stdout.split("\n") if l.startswith("RESULT")]
                    r = r[0][7:] if r else "crash " + q.stderr[-200:].replace("\n", " ")
                except subprocess.TimeoutExpired:
                    r = "overtime"
                hist.append(f"{pid}:{r[:int(os.environ.get('W', 60))]} ({time.time() - t0:.0f}s)")
                if not r.startswith("survived"):
                    return True, hist, f, line, where, old, newl
            return False, hist, f, line, where, old, newl
        finally:
            shutil.rmtree(c, ignore_errors=True)

    done = killed = 0
    with ThreadPoolExecutor(workers) as ex:
        for r in ex.map(run, range(min(len(todo), n))):
            if r is None:
                continue
            done += 1
            killed += r[0]
            if not r[0] or os.environ.get("ALL"):
                print("KILL" if r[0] else "LIVE", f"{r[2]}:{r[3]} {r[4]} {r[1]}\n   - {r[5][:150]}\n   + {r[6][:150]}", flush=True)
    print(f"{done} tried, {killed} caught", flush=True)


main()
