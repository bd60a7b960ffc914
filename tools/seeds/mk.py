#!/usr/bin/env python3
"""development aid: makes /verif/seeded/<id>/ from the definitions in defs*.py (mk.py ID... or all)"""
import importlib.util, json, os, shutil, subprocess, sys, tempfile
H = os.path.dirname(os.path.abspath(__file__))
OUT = "/verif/seeded"
defs = {}
for f in sorted(os.listdir(H)):
    if f.startswith("defs") and f.endswith(".py"):
        sp = importlib.util.spec_from_file_location(f[:-3], os.path.join(H, f)); m = importlib.util.module_from_spec(sp); sp.loader.exec_module(m)
        defs.update(m.SEEDS)
for i in sys.argv[1:] or defs:
    d = defs[i]
    out = os.path.join(OUT, i); os.makedirs(out, exist_ok=True)
    w = tempfile.mkdtemp(prefix="mkseed"); c = os.path.join(w, "r")
    shutil.copytree("/repo", c)
    for fn, old, new in d["edits"]:
        p = os.path.join(c, fn); s = open(p).read()
        assert s.count(old) == 1, (i, fn, s.count(old), old)
        open(p, "w").write(s.replace(old, new))
    subprocess.run(["gofmt", "-l", "."], cwd=c)
    r = subprocess.run(["git", "diff"], cwd=c, capture_output=True, text=True, check=True)
    open(os.path.join(out, "patch.diff"), "w").write(r.stdout)
    shutil.rmtree(w)
    shutil.copy(os.path.join(H, "lib.go.txt"), os.path.join(out, "lib_test.go"))
    if d.get("inpkg"):
        lib = "package kafkamock\n"
        open(os.path.join(out, "lib_test.go"), "w").write(lib)
    open(os.path.join(out, "demo_test.go"), "w").write(d["demo"].strip() + "\n")
    sh = open(os.path.join(H, "demo.sh.txt")).read().replace("RACEFLAG ", "-race " if d.get("race") else "")
    if d.get("race"):
        sh = sh.replace("export GOTOOLCHAIN", "export CGO_ENABLED=1 GOTOOLCHAIN")
    p = os.path.join(out, "demo.sh"); open(p, "w").write(sh); os.chmod(p, 0o755)
    json.dump({"property": d["property"], "needs": d["needs"], "what_it_breaks": d["breaks"]}, open(os.path.join(out, "meta.json"), "w"), indent=1)
    print("made", i)
