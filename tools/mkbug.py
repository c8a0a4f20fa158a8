"""mkbug.py SPECFILE: create seeded/<id> from a python spec: dicts with id, property, edits [(file, old, new)], needs, breaks, demo."""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HEAD = "import warnings; warnings.simplefilter('ignore')\nimport numpy as np, openmdao.api as om\n"
g = {}
exec(open(sys.argv[1]).read(), g)
only = sys.argv[2:]
for b in g["BUGS"]:
    if only and b["id"] not in only:
        continue
    d = f"{V}/seeded/{b['id']}"
    os.makedirs(d, exist_ok=True)
    t = tempfile.mkdtemp(prefix="mkbug-")
    try:
        subprocess.run(["git", "clone", "-q", "/repo", t + "/r"], check=True)
        for f, old, new in b["edits"]:
            p = f"{t}/r/openconcept/{f}"
            s = open(p).read()
            assert s.count(old) == 1, (b["id"], f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.run(["git", "-C", t + "/r", "diff"], capture_output=True, text=True, check=True).stdout
        open(d + "/patch.diff", "w").write(diff)
        open(d + "/demo.py", "w").write(HEAD + b["demo"].strip() + "\n")
        open(d + "/demo.sh", "w").write('#!/bin/bash\n# exit 0: the property holds; nonzero: it does not\nexport OPENMDAO_REPORTS=0 OMP_NUM_THREADS=1 MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1\nhere=$(cd "$(dirname "$0")" && pwd)\ntmp=$(mktemp -d)\ntrap \'rm -rf -- "$tmp"\' EXIT\ncd "$tmp"\n/opt/venv/bin/python -W ignore "$here/demo.py"\n')
        json.dump(dict(property=b["property"], needs=b["needs"], what_it_breaks=b["breaks"]), open(d + "/meta.json", "w"), indent=1)
    finally:
        shutil.rmtree(t)
    print("made", b["id"])
