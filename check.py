#!/usr/bin/env python3
"""check.py PROP [--tier quick|thorough]

Decides one property on /repo's current working tree:
 (1) extracts the functions under contract from /repo's source (tools/extract), joins them with the
     contracts in proofs/*.vrs and lets Verus discharge every obligation;
 (2) runs the bounded stand-in / replay harness (harness/) that links the real crate, to cover the functions
     out of the verifier's reach and to look for a failing input when an obligation fails.
Exit 0: held.  Exit 1 + VIOLATION line: broken.  Exit 2: the check itself could not run.
"""
import json, os, re, subprocess, sys, time, shutil, tempfile, pathlib, threading

ROOT = pathlib.Path(__file__).resolve().parent
REPO = pathlib.Path(os.environ.get("VERIF_REPO", "/repo"))
BUILD = ROOT / ".build"
EVID = ROOT / "evidence"
REPLAY = ROOT / "evidence" / "replay"
LEVELS = json.loads((ROOT / "proofs" / "plan.json").read_text())
UNITS = LEVELS["units"]
T0 = time.time()

def sh(cmd, timeout=None, cwd=None, env=None):
    """run, return (rc, out, err); rc None on timeout"""
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=cwd, env=env,
                         start_new_session=True, text=True, errors="replace")
    try:
        o, e = p.communicate(timeout=timeout)
        return p.returncode, o, e
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except ProcessLookupError:
            pass
        o, e = p.communicate()
        return None, o, e

# ---------------------------------------------------------------- harness
def build_harness():
    cmd = (f'. /opt/vp/env.sh; cd {ROOT}/harness && CARGO_TARGET_DIR={BUILD}/harness '
           '${CARGO:-cargo} build --offline 2>&1 | tail -40; exit ${PIPESTATUS[0]}')
    rc, o, e = sh(["bash", "-c", cmd], timeout=600)
    return rc == 0, o + e

def harness(prop, seed, secs, case=None, timeout=None, hang=25):
    d = tempfile.mkdtemp(prefix=f"verif-{prop}-")
    try:
        b = BUILD / "harness/debug/harness"
        a = f"ulimit -v 20000000; exec {b} {prop} --dir {d} --seed {seed} --secs {secs} --hang {hang}"
        if case is not None:
            a += f" --case {case}"
        rc, o, e = sh(["bash", "-c", a], timeout=timeout or secs + 90)
        return rc, o, e
    finally:
        shutil.rmtree(d, ignore_errors=True)

def harness_full(prop, seed, secs):
    """-> dict(evaluations, cases, distinct, violation|None) or {'error':..}"""
    rc, o, e = harness(prop, seed, secs)
    line = next((l for l in reversed(o.splitlines()) if l.startswith("{")), None)
    if line and rc in (0, 1):
        r = json.loads(line)
        if r["violation"]:
            # confirm by replaying the single case
            k = r["violation"]["case"]
            n = 0
            for _ in range(2):
                rc2, o2, e2 = harness(prop, seed, 60, case=k, timeout=150, hang=60)
                if rc2 != 0:
                    n += 1
                    r["violation"]["replay_out"] = (o2[-3000:], e2[-6000:])
            if n == 0:
                # e.g. a hang caused by a loaded machine, or a case depending on other threads
                if r["violation"].get("hang"):
                    r["violation"] = None
                    r["note"] = f"case {k} was slow but terminates when run alone"
                else:
                    r["violation"]["replay_out"] = ("the single case did not fail when run alone", "")
                    r["violation"] = None
                    r["note"] = f"case {k} failed once but not when run alone"
        return r
    m = re.search(r"ABORTED-CASES(.*)", o)
    ks = m.group(1).split() if m else []
    for k in ks:
        rc2, o2, e2 = harness(prop, seed, 60, case=int(k), timeout=150)
        if rc2 != 0:
            return {"evaluations": 0, "cases": 0, "distinct": 0, "violation": {
                "case": int(k), "hang": False, "msg": "the code aborts the process (stack overflow, out of memory or double panic)",
                "replay_out": (o2[-3000:], e2[-6000:])}}
    if rc is not None and rc < 0 or rc in (134, 139):
        # killed by a signal without telling the case: find it single-threaded
        return {"error": f"harness ended with {rc}: {o[-500:]} {e[-500:]}", "signal": True}
    return {"error": f"harness ended with {rc}: {o[-500:]} {e[-500:]}"}

# ---------------------------------------------------------------- verus
FAIL = re.compile(r"postcondition not satisfied|precondition not satisfied|assertion failed|invariant not satisfied|"
                  r"possible arithmetic|decreases not satisfied|could not prove termination|possible division|"
                  r"possible bit shift|unreachable|recommendation not met|constructed value may fail|failed this|"
                  r"loop must have a decreases|possible truncation", re.I)
RLIM = re.compile(r"resource limit|rlimit|timed out|canceled|solver (crash|error)", re.I)

def build_extractor():
    src = ROOT / "tools/extract"
    if not src.exists():
        return True, ""
    rc, o, e = sh(["bash", "-c", f"cd {src} && env -u RUSTUP_TOOLCHAIN CARGO_TARGET_DIR={BUILD}/extract cargo build --offline --release 2>&1 | tail -30; exit ${{PIPESTATUS[0]}}"], timeout=600)
    return rc == 0, o + e

def run_unit(unit, res, rlimit):
    """fills res[unit] = dict(status=proved|failed|undecided, ...)"""
    t = time.time()
    out = BUILD / "verus" / f"{unit}.rs"
    out.parent.mkdir(parents=True, exist_ok=True)
    info = out.with_suffix(".json")
    for f in (out, info):
        if f.exists(): f.unlink()
    r = {"unit": unit, "status": "undecided", "why": "", "fns": [], "verified": 0, "errors": 0, "failed": [], "smt_ms": 0}
    res[unit] = r
    ex = BUILD / "extract/release/extract"
    rc, o, e = sh([str(ex), str(REPO), str(ROOT / "proofs"), unit, str(out), str(info)], timeout=60)
    if rc != 0:
        r["why"] = "extraction: " + (e or o).strip()[-1500:]
        return
    meta = json.loads(info.read_text())
    r["fns"] = meta["fns"]
    r["dropped"] = meta.get("dropped", [])
    r["structure_changed"] = meta.get("structure_changed", [])
    cmd = ["verus", "--output-json", "--time-expanded", "--no-report-long-running", "--rlimit", str(rlimit), "--triggers-mode", "silent", str(out),
           "--", "--error-format=json"]
    rc, o, e = sh(cmd, timeout=600, cwd=str(out.parent))
    r["cmd"] = "verus --rlimit %s %s" % (rlimit, out)
    r["wall_s"] = round(time.time() - t, 2)
    (out.with_suffix(".log")).write_text(o[-200000:] + "\n" + e[-200000:])
    if rc is None:
        r["why"] = "verus timed out"
        return
    try:
        j = json.loads(o[o.index("{"):])
        vr = j["verification-results"]
    except Exception as x:
        r["why"] = f"verus gave no result: {x}: {e[-1500:]}"
        return
    r["verified"] = vr.get("verified", 0) or 0
    r["errors"] = vr.get("errors", 0) or 0
    r["smt_ms"] = j.get("times-ms", {}).get("smt", {}).get("total", 0) if isinstance(j.get("times-ms"), dict) else 0
    msgs = []
    for l in e.splitlines():
        if not l.startswith("{"): continue
        try: m = json.loads(l)
        except Exception: continue
        if m.get("level") == "error" or (m.get("level") or "").startswith("error"):
            msgs.append(m)
    lines = out.read_text().splitlines()
    def fn_at(ln):
        for f in meta["fns"]:
            if f["out_start"] <= ln <= f["out_end"]: return f["name"]
        for i in range(min(ln, len(lines)) - 1, -1, -1):
            m = re.match(r"\s*(?:#\[[^\]]*\]\s*)*(?:pub )?(?:open |closed |uninterp |broadcast )*(?:proof |spec |exec )?fn (\w+)", lines[i])
            if m: return m.group(1)
        return "?"
    real, other, rl = [], [], []
    for m in msgs:
        t_ = m["message"]
        if t_.startswith("aborting due to"): continue
        sp = [s for s in m.get("spans", [])]
        pr = [s for s in sp if s.get("is_primary")] or sp
        at = fn_at(pr[0]["line_start"]) if pr and pr[0]["file_name"].endswith(out.name) else "?"
        # a failure concerns the function in whose body it lies (a failed call-precondition: the caller)
        cand = [fn_at(s["line_start"]) for s in sp if s["file_name"].endswith(out.name)]
        ext = [f["name"] for f in meta["fns"]]
        owner = next((c for c in [at] + cand if c in ext), at)
        ent = {"fn": owner, "msg": t_, "at": [f'{s["line_start"]}: {(s["text"][0]["text"].strip() if s.get("text") else "")} [{s.get("label") or ""}]' for s in sp][:6]}
        if RLIM.search(t_): rl.append(ent)
        elif m.get("code") is None and FAIL.search(t_): real.append(ent)
        else: other.append(ent)
    r["log"] = str(out.with_suffix(".log"))
    if other:
        r["why"] = "not accepted by the verifier's front end: " + "; ".join(f'{x["fn"]}: {x["msg"]}' for x in other[:4])[:1500]
        r["verified"] = 0
        return
    if vr.get("encountered-vir-error"):
        r["why"] = "verus front-end error"
        return
    must = [x for x in real if x["fn"].startswith("must_fail_")]
    real = [x for x in real if not x["fn"].startswith("must_fail_")]
    nmust = len(re.findall(r"fn must_fail_\w+", "\n".join(lines)))
    r["must_fail"] = [nmust, len(set(x["fn"] for x in must))]
    if r["must_fail"][0] != r["must_fail"][1]:
        r["why"] = "vacuity guard: a must-fail probe did not fail"
        r["status"] = "vacuous"
        return
    r["failed"] = real
    r["rlimit_hit"] = rl
    if r["verified"] == 0 and not real:
        r["why"] = "no obligations"
    elif real:
        r["status"] = "failed"
    elif rl:
        r["why"] = "solver gave up (resource limit): " + ", ".join(x["fn"] for x in rl)
    elif r["errors"] > len(set(x["fn"] for x in must)):
        r["why"] = "unclassified verifier errors"
    else:
        r["status"] = "proved"

def verus_all(prop, tier):
    us = [u for u in UNITS if prop in UNITS[u]["props"]]
    res = {}
    if not us: return res
    sem = threading.Semaphore(4)
    def go(u):
        with sem: run_unit(u, res, UNITS[u].get("rlimit", 60))
    th = [threading.Thread(target=go, args=(u,)) for u in us]
    [t.start() for t in th]; [t.join() for t in th]
    return res

# ---------------------------------------------------------------- trusted-base scan
def trusted_scan(units):
    out = []
    for u in units:
        f = BUILD / "verus" / f"{u}.rs"
        if not f.exists(): continue
        ls = f.read_text().splitlines()
        for i, l in enumerate(ls):
            if re.search(r"external_body|external_type_specification|assume_specification|\badmit\(|\bassume\(|uninterp|#\[verifier::external\]|axiom fn", l):
                nxt = l.strip() if "fn " in l or "assume_specification" in l else (l.strip() + " " + next((x.strip() for x in ls[i + 1:i + 4] if re.search(r"\b(fn|struct|enum)\b", x)), ""))
                nxt = re.sub(r"\s+", " ", nxt)[:140]
                if nxt not in out: out.append(nxt)
    return out

def known_findings(prop):
    f = ROOT / "KNOWN_FINDINGS.txt"
    r = []
    if f.exists():
        for l in f.read_text().splitlines():
            m = re.match(r"finding: property=(\S+) match=/(.*?)/ (.*)", l)
            if m and m.group(1) == prop: r.append((m.group(2), m.group(3)))
    return r

def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv: tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    plan = LEVELS["props"][prop]
    EVID.mkdir(exist_ok=True); REPLAY.mkdir(exist_ok=True); BUILD.mkdir(exist_ok=True)
    hb = {}
    th = threading.Thread(target=lambda: hb.update(r=build_harness()))
    th.start()
    okx, xo = build_extractor()
    vr = {}
    if okx: vr = verus_all(prop, tier)
    th.join()
    okh, ho = hb["r"]
    secs = {"quick": plan.get("quick_secs", 25), "thorough": plan.get("thorough_secs", 300)}[tier]
    bad = [(u, x) for u in vr for x in vr[u]["failed"]
           if vr[u]["status"] == "failed" and (prop in UNITS[u].get("fn_props", {}).get(x["fn"], UNITS[u]["props"]))]
    und = [u for u in vr if vr[u]["status"] not in ("proved", "failed")]
    # failures in functions whose loop structure changed: invariants no longer fit, so nothing is decided by them
    soft = [(u, x) for u, x in bad if x["fn"] in vr[u].get("structure_changed", [])]
    bad = [b for b in bad if b not in soft]
    if bad or soft or und: secs = max(secs, 60)
    if okh:
        hr = harness_full(prop, seed, secs)
        if hr.get("signal"):
            hr = harness_full(prop, seed, secs)
    else:
        hr = {"error": "harness does not build: " + ho[-1500:]}
    viol, tail, rep = None, "", None
    kf = known_findings(prop)
    if hr.get("violation"):
        v = hr["violation"]
        hit = next((t for p_, t in kf if re.search(p_, v["msg"])), None)
        if hit:
            print(f"KNOWN-FINDING: property={prop} {hit}")
        else:
            rep = REPLAY / f"{prop}-case{v['case']}-seed{seed}.txt"
            viol = v["msg"]
            rep.write_text(f"property {prop}: {v['msg']}\nreplay: {BUILD}/harness/debug/harness {prop} --dir /tmp/replay-{prop} --seed {seed} --case {v['case']}\n\n"
                           + "\n".join(v.get("replay_out", ("", "")))
                           + ("\n\nfailed obligations:\n" + json.dumps([x for _, x in bad + soft], indent=1) if bad or soft else ""))
    elif hr.get("signal") :
        viol = "the real code aborts the process: " + hr["error"]
        rep = REPLAY / f"{prop}-abort-seed{seed}.txt"
        rep.write_text(viol + f"\nreplay: {BUILD}/harness/debug/harness {prop} --dir /tmp/replay-{prop} --seed {seed} --secs {secs}\n")
    if viol is None and bad:
        u, x = bad[0]
        viol = f"obligation failed in {x['fn']}: {x['msg']}"
        rep = REPLAY / f"{prop}-obligation-{x['fn']}.txt"
        lg = vr[u].get("log")
        rep.write_text(f"property {prop}: obligation of function {x['fn']} (unit {u}) is not discharged any more\n"
                       + json.dumps([y for _, y in bad], indent=1) + f"\n\nverifier: {vr[u].get('cmd')}\n\n"
                       + (pathlib.Path(lg).read_text()[-60000:] if lg else ""))
        tail = " no-failing-input-found"
    # evidence
    proved = sum(r["verified"] for r in vr.values())
    total = proved + sum(len(r["failed"]) + len(r.get("rlimit_hit", [])) for r in vr.values())
    fns = [dict(function=f["name"], source=f["src"], unit=u, status=r["status"]) for u, r in vr.items() for f in r["fns"]]
    nontriv = (vr and all(r["status"] == "proved" for r in vr.values()))
    level = plan["level"]
    cov = {
        "obligations": total, "discharged": proved,
        "checker_cmd": "; ".join(r.get("cmd", "") for r in vr.values()) or "none",
        "trusted_base": plan.get("trusted", []) + LEVELS["trusted_common"] + ["scan: " + s for s in trusted_scan(vr)],
        "back_end": "Verus 0.2026.09.13 / Z3 (bundled)",
        "solver_ms": sum(r["smt_ms"] for r in vr.values()),
        "functions_under_contract": fns,
        "units": {u: {k: r.get(k) for k in ("status", "why", "verified", "errors", "must_fail", "wall_s", "structure_changed", "dropped", "failed")} for u, r in vr.items()},
        "proof_complete_for_listed_functions": bool(nontriv),
        "explanation": plan["explain"],
        "evaluations": hr.get("evaluations", 0), "distinct_nontrivial": hr.get("distinct", 0),
        "rule": "bounded stand-in (never counted as proved): " + plan["rule"],
        "samples": [f"{BUILD}/harness/debug/harness {prop} --dir /tmp/x --seed {seed} --case {k}" for k in range(3)],
        "standin": {"seconds": secs, "cases": hr.get("cases", 0), "error": hr.get("error"), "note": hr.get("note")},
    }
    if not okx: cov["extractor_error"] = xo[-1500:]
    if level == "exploration": pass
    ev = {"property": prop, "tier": tier if tier in ("quick", "thorough") else "quick", "seed": seed, "level": level, "coverage": cov,
          "assumptions": plan.get("assume", []) + LEVELS["assume_common"], "wall_s": round(time.time() - T0, 1), "violations": 1 if viol else 0}
    (EVID / f"{prop}.json").write_text(json.dumps(ev, indent=1) + "\n")
    for u, r in vr.items():
        print(f"unit {u}: {r['status']} verified={r['verified']} failed={len(r['failed'])} {r['why'][:300]}")
        for x in r["failed"][:8]: print(f"   {x['fn']}: {x['msg']} @ {x['at'][:2]}")
    print(f"stand-in: {hr.get('evaluations', 0)} evaluations, {hr.get('distinct', 0)} distinct, {hr.get('error') or hr.get('note') or 'ok'}")
    if viol:
        print(viol[:1500])
        print(f"VIOLATION property={prop} replay={rep}{tail}")
        sys.exit(1)
    if "error" in hr and not (vr and nontriv):
        print("check could not run: " + hr["error"][-1500:]); sys.exit(2)
    print(f"property {prop} held ({'proved obligations: %d; ' % proved if vr else ''}stand-in {'NOT AVAILABLE' if 'error' in hr else 'passed'})")
    sys.exit(0)

if __name__ == "__main__":
    main()
