#!/usr/bin/env python3
"""mkseed.py DEF.py...: writes /verif/seeded/<id>/ from a definition (id, prop, needs, breaks, edits, demo, flags, env)."""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
H = os.environ.get("SEED_HELPERS", V + "/tools")
def make(d):
    out = "%s/seeded/%s" % (V, d["id"])
    os.makedirs(out, exist_ok=True)
    diff = ""
    with tempfile.TemporaryDirectory() as t:
        for sub in ("a", "b"):
            for f, old, new in d["edits"]:
                os.makedirs(os.path.dirname("%s/%s/%s" % (t, sub, f)), exist_ok=True)
                if not os.path.exists("%s/%s/%s" % (t, sub, f)):
                    shutil.copy("/repo/" + f, "%s/%s/%s" % (t, sub, f))
        files = []
        for f, old, new in d["edits"]:
            p = "%s/b/%s" % (t, f)
            s = open(p).read()
            n = s.count(old)
            assert n == 1, (d["id"], f, old, n)
            open(p, "w").write(s.replace(old, new))
            if f not in files: files.append(f)
        for f in files:
            r = subprocess.run(["git", "diff", "--no-index", "--no-prefix", "a/" + f, "b/" + f], cwd=t, capture_output=True, text=True)
            diff += r.stdout
    open(out + "/patch.diff", "w").write(diff)
    json.dump({"property": d["prop"], "needs": d["needs"], "what_it_breaks": d["breaks"]}, open(out + "/meta.json", "w"), indent=1)
    if d.get("sh"):
        open(out + "/demo.sh", "w").write(d["sh"])
    else:
        s = open(H + "/demo_template.sh").read().replace("@FLAGS@", d.get("flags", "")).replace("@ENV@", d.get("env", ""))
        open(out + "/demo.sh", "w").write(s)
    os.chmod(out + "/demo.sh", 0o755)
    if d.get("demo"):
        open(out + "/demo.c", "w").write(d["demo"])
        shutil.copy(H + "/demo_util.h", out + "/util.h")
for f in sys.argv[1:]:
    g = {}
    exec(open(f).read(), g)
    for d in g["BUGS"]:
        make(d); print(d["id"])
