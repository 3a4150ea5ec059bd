#!/usr/bin/env python3
"""mk.py [ID..]: writes /verif/seeded/<id>/ from specs.py after confirming each in /repo (build, stable tests, demo), undone afterwards."""
import json, pathlib, subprocess, sys, shutil
H = pathlib.Path(__file__).resolve().parent
S = H.parent.parent / "seeded"
SEEDS = []
def seed(id, prop, edits, needs, breaks, demo): SEEDS.append((id, prop, edits, needs, breaks, demo))
exec((H / "specs.py").read_text())
def sh(c): return subprocess.run(["bash", "-c", c], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
want = sys.argv[1:]
for id, prop, edits, needs, breaks, demo in SEEDS:
    if want and id not in want: continue
    if not want and (S / id / "patch.diff").exists(): continue
    assert sh("git -C /repo status --porcelain").stdout == "", "repo dirty"
    d = S / id
    if d.exists(): shutil.rmtree(d)
    d.mkdir(parents=True)
    (d / "demo.sh").write_text((H / "demo.sh").read_text()); (d / "demo.sh").chmod(0o755)
    (d / "common.rs").write_text((H / "common.rs").read_text())
    (d / "demo.rs").write_text("include!(\"common.rs\");\n" + demo.strip() + "\n")
    (d / "meta.json").write_text(json.dumps({"property": prop, "needs": needs, "what_it_breaks": breaks}, indent=1) + "\n")
    ok = True
    try:
        sh("bash /opt/vp/build.sh")
        r = sh(f"cd /repo && bash {d}/demo.sh")
        if r.returncode != 0: print(id, "DEMO FAILS ON CLEAN", r.stdout[-1500:]); ok = False
        if ok:
            for f, a, b in edits:
                p = pathlib.Path("/repo") / f; t = p.read_text()
                if t.count(a) != 1: print(id, "EDIT matches", t.count(a), a[:80]); ok = False; break
                p.write_text(t.replace(a, b))
        if ok:
            (d / "patch.diff").write_text(sh("git -C /repo diff").stdout)
            b = sh("bash /opt/vp/build.sh")
            if b.returncode: print(id, "BUILD FAILS", b.stdout[-2000:]); ok = False
        if ok:
            t = sh("bash /opt/vp/test.sh /tmp/seedtest.json")
            res = json.load(open("/tmp/seedtest.json")); base = json.load(open("/opt/vp/BASELINE.json"))
            st = base.get("stable") or base.get("passed") or base
            stable = set(st if isinstance(st, list) else st.get("tests", st))
            passed = set(res.get("passed", []))
            miss = [x for x in stable if x not in passed]
            if miss: print(id, "TESTS FAIL", miss[:5]); ok = False
        if ok:
            r = sh(f"cd /repo && bash {d}/demo.sh")
            if r.returncode == 0: print(id, "DEMO DOES NOT FAIL"); ok = False
            elif r.returncode == 3: print(id, "DEMO DOES NOT COMPILE", r.stdout[-800:]); ok = False
            else: print(id, "ok:", r.stdout.strip().splitlines()[-1][:150] if r.stdout.strip() else r.returncode)
    finally:
        sh("git -C /repo checkout -- .")
    if not ok: shutil.rmtree(d)
sh("bash /opt/vp/build.sh")
