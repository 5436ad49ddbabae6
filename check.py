#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough] : decide one property on /repo's current tree.

 1. build the extractor (vx) and, where the property has one, the concrete harness against /repo
 2. extract the functions the property depends on, with contracts, from /repo's current source
 3. run the deductive verifier (Verus; for C06 additionally z3/cvc5 on real polynomial identities)
 4. vacuity guard: the same file with `assert(false)` at every loop end and function exit must fail there
 5. run the concrete oracle (counterexample search; validation of the assumed contracts)
Exit 0 / 1 (+ VIOLATION line).  See DESIGN.md.
"""
import json, os, re, subprocess, sys, time, threading, shutil, tempfile

V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(V, "lib"))
import units  # noqa: E402
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(V, ".build")
T0 = time.time()

def log(*a): print(f"[{time.time()-T0:6.1f}s]", *a, flush=True)

def sh(cmd, cwd=None, timeout=600, env=None):
    e = dict(os.environ)
    if env: e.update(env)
    try:
        p = subprocess.run(cmd, cwd=cwd, capture_output=True, text=True, timeout=timeout, env=e, errors="replace")
        return p.returncode, p.stdout, p.stderr
    except subprocess.TimeoutExpired as x:
        d = lambda b: b.decode(errors="replace") if isinstance(b, bytes) else (b or "")
        return 124, d(x.stdout), d(x.stderr)

def build_vx():
    rc, o, e = sh(["cargo", "build", "--offline", "--quiet"], cwd=os.path.join(V, "vx"), timeout=500, env={"CARGO_TARGET_DIR": os.path.join(BUILD, "vx")})
    if rc: return None, e[-2000:]
    return os.path.join(BUILD, "vx", "debug", "vx"), None

def build_harness(pkg):
    h = os.path.join(V, "harness")
    rc, o, e = sh(["cargo", "build", "--offline", "--quiet", "-p", pkg], cwd=h, timeout=600, env={"CARGO_TARGET_DIR": os.path.join(BUILD, "harness")})
    if rc: return None, e[-3000:]
    return os.path.join(BUILD, "harness", "debug", pkg), None

def run_harness(binp, pid, seed, cases, secs):
    """-> dict(evaluations.., violation) ; a crash or a hang is attributed to the case that was running"""
    d = tempfile.mkdtemp(prefix="vxh")
    try:
        rc, o, e = sh([binp, pid, "--seed", str(seed), "--cases", str(cases), "--secs", str(secs)], cwd=d, timeout=secs + 60)
        for l in reversed(o.strip().split("\n")):
            if l.startswith("{"):
                return json.loads(l)
        # crash / hang: find the case, one thread, logged
        why = "did not terminate" if rc == 124 else f"crashed (exit {rc}): {e.strip()[-300:]}"
        lg = os.path.join(d, "cur")
        rc, o, e = sh([binp, pid, "--seed", str(seed), "--cases", str(cases), "--secs", str(secs), "--threads", "1", "--log", lg], cwd=d, timeout=secs + 40)
        for l in reversed(o.strip().split("\n")):
            if l.startswith("{"):
                r = json.loads(l)
                if r.get("violation"): return r
        if rc in (0, 1): return {"evaluations": 0, "distinct_nontrivial": 0, "samples": [], "violation": None, "note": f"unreproducible: {why}"}
        k, _, txt = open(lg + ".0").read().partition("\n")
        why = "did not terminate" if rc == 124 else f"crashed (exit {rc}): {e.strip()[-300:]}"
        return {"evaluations": int(k), "distinct_nontrivial": 0, "samples": [txt], "violation": {"seed": seed, "case": int(k), "input": txt, "violation": why}}
    finally:
        shutil.rmtree(d, ignore_errors=True)

VERUS = "verus"

def run_verus(rs, timeout, extra=()):
    t = time.time()
    rc, o, e = sh([VERUS, rs, "--output-json", "--time", "--error-format=json", "--triggers-mode", "silent", "--multiple-errors", "20", *extra], cwd=os.path.dirname(rs), timeout=timeout)
    res = {"rc": rc, "secs": time.time() - t, "errors": [], "verified": 0, "nerr": 0, "ok": False, "timeout": rc == 124, "smt_ms": 0, "vir_error": False}
    try:
        j = json.loads(o[o.index("{"):])
        vr = j.get("verification-results", {})
        res["verified"], res["nerr"] = vr.get("verified", 0), vr.get("errors", 0)
        res["ok"] = bool(vr.get("success"))
        res["vir_error"] = bool(vr.get("encountered-vir-error"))
        tm = j.get("times-ms", {})
        res["smt_ms"] = (tm.get("smt") or {}).get("total", 0) if isinstance(tm.get("smt"), dict) else 0
        res["total_ms"] = tm.get("total", 0)
        res["verus_version"] = (j.get("verus") or {}).get("version")
    except Exception as x:
        res["parse"] = str(x)
    for l in e.split("\n"):
        if not l.startswith("{"): continue
        try: m = json.loads(l)
        except Exception: continue
        if m.get("level") not in ("error",): continue
        if m.get("message", "").startswith("aborting"): continue
        sp = [(s["line_start"], s.get("label") or "", bool(s.get("is_primary")), s["file_name"]) for s in m.get("spans", [])]
        res["errors"].append({"message": m["message"], "code": (m.get("code") or {}).get("code") if m.get("code") else None, "spans": sp, "rendered": m.get("rendered", "")[:1500]})
    if not res["errors"] and not res["ok"]: res["stderr"] = e[-1500:]
    return res

# messages of failed proof obligations (anything else means the file was not accepted as input)
OBL = ("postcondition not satisfied", "precondition not satisfied", "invariant not satisfied", "loop invariant not satisfied", "assertion failed", "possible arithmetic", "possible division by zero",
       "decreases not satisfied", "could not prove termination", "unable to prove", "loop ensures not satisfied", "requires not satisfied", "assertion not satisfied", "possible bit shift", "unreachable", "fn_ensures",
       "recommendation not met", "constructed value may fail")

def is_obl(m): return any(k in m for k in OBL)
def is_limit(m): return "rlimit" in m.lower() or "resource limit" in m.lower() or "timed out" in m.lower() or "solver" in m.lower()

def which_fn(fns, line):
    for f in fns:
        if f["start"] <= line <= f["end"]: return f
    return None

def setup():
    b, e = build_vx()
    if not b: sys.exit(e)
    for p in sorted({u["harness"] for u in units.UNITS.values() if u.get("harness")}):
        b, e = build_harness(p)
        if not b: sys.exit(e)

def main():
    pid = sys.argv[1]
    if pid == "--setup": return setup()
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv: tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    U = units.UNITS[pid]
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    os.makedirs(BUILD, exist_ok=True)
    thorough = tier == "thorough"
    st = {}

    def th_h():
        st["hbin"], st["herr"] = build_harness(U["harness"]) if U.get("harness") else (None, "no harness")
    ht = threading.Thread(target=th_h); ht.start()
    vx, err = build_vx()
    undecided, failed, units_out = [], [], []
    limits = []
    wd = os.path.join(BUILD, "out", pid); os.makedirs(wd, exist_ok=True)
    if vx is None:
        undecided.append(f"extractor does not build: {err}")
    smt_ms = 0.0; obligations = discharged = 0; fns_under = []; edits = []; reach_info = []; trusted = set(); dep_info = []; dep_open = []
    cmds = []
    if vx:
        jobs = []
        deps = [d for d in U.get("deps", []) if d not in U["units"]]
        gate = threading.Semaphore(8)
        for u in U["units"] + deps:
            dep = u in deps
            out, rep = os.path.join(wd, u + ".rs"), os.path.join(wd, u + ".json")
            rc, o, e = sh([vx, os.path.join(V, "units", u + ".vt"), out, rep, "--root", REPO])
            rout, rrep = os.path.join(wd, u + "_reach.rs"), os.path.join(wd, u + "_reach.json")
            rc2, o2, e2 = (0, "", "") if dep else sh([vx, os.path.join(V, "units", u + ".vt"), rout, rrep, "--root", REPO, "--reach"])
            if rc or rc2:
                undecided.append(f"{u}: extraction failed: {(e or e2)[-500:]}"); continue
            R = json.load(open(rep))
            if R["errors"]:
                if dep: dep_open += [f"a contract relied on is not proved: {u}: {x}" for x in R["errors"]]
                else: undecided += [f"{u}: {x}" for x in R["errors"]]
                log("extraction:", *R["errors"]); continue
            res = {}
            def reach(u=u, rout=rout, res=res, dep=dep):
                for _ in range(0 if dep else 2):
                    res["reach"] = run_verus(rout, 600 if thorough else 300, U.get("verus_args", []))
                    if res["reach"]["verified"] + res["reach"]["nerr"] > 0 or res["reach"]["timeout"]: break
            def job(u=u, out=out, rout=rout, rep=rep, rrep=rrep, res=res, R=R, reach=reach, dep=dep):
              with gate:
                r0 = res["main"] = run_verus(out, 600 if thorough else 300, U.get("verus_args", []))
                # a function whose obligations fail and whose contract comes with further sets of invariants: try those
                choice, cur, r = {}, R, r0
                for _ in range(6):
                    if r["ok"] or r["timeout"] or time.time() - T0 > 300: break
                    lines = [(ln, fn) for x in r["errors"] if is_obl(x["message"]) for ln, _, _, fn in x["spans"]]
                    more = {}
                    for ln, fn in lines:
                        f = which_fn(cur["functions"], ln) if os.path.basename(fn).startswith(u) else None
                        if f and f["alternative"] + 1 < f["alternatives"]: more[f["path"]] = f["alternative"] + 1
                    if not more: break
                    choice.update(more)
                    alt = [x for k, v in choice.items() for x in ("--alt", f"{k}={v}")]
                    out2, rep2 = out[:-3] + "_alt.rs", rep[:-5] + "_alt.json"
                    sh([vx, os.path.join(V, "units", u + ".vt"), out2, rep2, "--root", REPO, *alt])
                    cur, r = json.load(open(rep2)), run_verus(out2, 600 if thorough else 300, U.get("verus_args", []))
                    log(f"{u}: other invariants for", *more, "->", "accepted" if r["ok"] else "not accepted")
                    if r["ok"]:
                        shutil.copy(out2, out); shutil.copy(rep2, rep); res["main"], res["R"] = r, cur
                        if dep: break
                        sh([vx, os.path.join(V, "units", u + ".vt"), rout, rrep, "--root", REPO, "--reach", *alt])
                        res["RR"] = json.load(open(rrep))
                        reach()
            def jobr(u=u, reach=reach):
                with gate: reach()
            for j in (job,) if dep else (job, jobr):
                t = threading.Thread(target=j); t.start(); jobs.append(t)
            units_out.append((u, R, R if dep else json.load(open(rrep)), res, out, rout))
        for t in jobs: t.join()
        for u, R, RR, res, out, rout in units_out:
            m = res["main"]; R = res.get("R", R); RR = res.get("RR", RR)
            cmds.append(f"vx units/{u}.vt -> {u}.rs; {VERUS} {u}.rs --output-json --time --error-format=json")
            text = open(out).read()
            smt_ms += m.get("smt_ms", 0)
            obligations += m["verified"] + m["nerr"]; discharged += m["verified"]
            for f in R["functions"]:
                fns_under.append(f"{f['path']}" + (f" (as {f['name']})" if f["name"] else "") + f" @ {f['at']}")
                edits += [f"{f['path']}: {x}" for x in f["edits"]]
            trusted |= scan_trusted(text)
            if u in deps:
                # contracts this property's units take for granted: if one of them no longer holds, the argument is open
                dep_info.append({"unit": u, "verified": m["verified"], "errors": m["nerr"]})
                if not m["ok"]: dep_open.append(f"a contract relied on is not proved: {u}: " + ("timed out" if m["timeout"] else "; ".join(x["message"][:200] for x in m["errors"][:3]) + m.get("stderr", "")[:200]))
                log(f"verus {u} (relied on): verified {m['verified']} errors {m['nerr']} in {m['secs']:.1f}s")
                continue
            log(f"verus {u}: verified {m['verified']} errors {m['nerr']} in {m['secs']:.1f}s ({len(R['functions'])} extracted functions)")
            if not m["ok"]:
                if m["timeout"]: undecided.append(f"{u}: verifier timed out"); limits.append(u)
                others = [x for x in m["errors"] if not is_obl(x["message"])]
                obl = [x for x in m["errors"] if is_obl(x["message"])]
                if m["verified"] + m["nerr"] == 0 or m["vir_error"]:
                    undecided.append(f"{u}: the verifier did not accept the extracted file: " + "; ".join(x["message"][:300] for x in m["errors"][:4]) + m.get("stderr", ""))
                else:
                    for x in others:
                        undecided.append(f"{u}: {x['message'][:300]}")
                    for x in obl:
                        fs = None
                        for ln, lab, prim, fn in x["spans"]:
                            if os.path.basename(fn) == os.path.basename(out):
                                fs = which_fn(R["functions"], ln) or fs
                        name = fs["path"] if fs else f"{u} (lemma)"
                        failed.append({"unit": u, "function": name, "at": fs["at"] if fs else None, "obligation": x["message"], "detail": x["rendered"]})
            else:
                if m["verified"] == 0: undecided.append(f"{u}: no obligations generated (vacuous)")
                # reachability probes
                r = res["reach"]
                want = set()
                for i, l in enumerate(open(rout).read().split("\n"), 1):
                    if "assert(false); } } // reachability probe" in l: want.add(i)
                got = {ln for x in r["errors"] if "assertion failed" in x["message"] for ln, _, p, _ in x["spans"] if p}
                missing = sorted(want - got)
                reach_info.append({"unit": u, "probes": len(want), "reachable": len(want & got)})
                if r["verified"] + r["nerr"] == 0:
                    reach_info[-1]["inconclusive"] = "timed out" if r["timeout"] else (r.get("stderr") or "; ".join(x["message"][:200] for x in r["errors"][:3]))
                    log("vacuity guard inconclusive:", reach_info[-1]["inconclusive"][:300])
                elif missing and not r["timeout"]:
                    names = sorted({(which_fn(RR["functions"], l) or {"path": "?"})["path"] for l in missing})
                    dead = set(U.get("dead", []))
                    names = [n for n in names if n not in dead]
                    if names: undecided.append(f"{u}: vacuity guard: unreachable end of {names}")
            # side obligations
            if U.get("smt") and m["ok"]:
                import smtinv
                obs = []
                for s in R["sym"]: obs += smtinv.obligations(s)
                obs += smtinv.fixed()
                t = time.time(); nd = 0
                for name, txt in obs:
                    v, solver, sec = smtinv.solve(txt, 60)
                    obligations += 1; smt_ms += sec * 1000
                    if v == "unsat": discharged += 1; nd += 1
                    elif v == "sat": failed.append({"unit": u, "function": name.split(":")[0], "at": None, "obligation": name, "detail": f"{solver}: sat (the negated identity has a model)\n{txt}"})
                    else: undecided.append(f"{u}: {name}: {v}")
                cmds.append("z3 / cvc5 on the real-arithmetic identities (lib/smtinv.py)")
                log(f"smt identities: {nd}/{len(obs)} discharged in {time.time()-t:.1f}s")
    ht.join()
    # ---- concrete oracle
    H = {"evaluations": 0, "distinct_nontrivial": 0, "samples": [], "violation": None}
    cex = None
    if st.get("hbin"):
        proved = not failed and not undecided and not dep_open
        secs = (U.get("secs_thorough", 240) if thorough else U.get("secs", 8)) if proved else (400 if thorough else U.get("secs_fail", 90))
        cases = U.get("cases", 60000) if proved and not thorough else 10**9
        H = run_harness(st["hbin"], pid, seed, cases, secs)
        log(f"harness: {H['evaluations']} cases, violation: {H['violation']}")
        cex = H["violation"]
        if H.get("note"): log(H["note"])
    elif U.get("harness"):
        log("harness does not build:", st.get("herr"))
        undecided.append("harness does not build against this tree: " + (st.get("herr") or "")[:300])
    # ---- verdict
    known = load_known()
    rc = 0
    replay = os.path.join(V, "evidence", f"{pid}.replay.json")
    nviol = 0
    for k in known.get(pid, []): print(f"KNOWN-FINDING: property={pid} {k}")
    if cex and not suppressed(pid, cex):
        json.dump({"property": pid, "failing_input": cex, "rerun": f"cd {V} && .build/harness/debug/{U['harness']} {pid} --seed {cex['seed']} --case {cex['case']}", "failed_obligations": failed, "undecided": undecided}, open(replay, "w"), indent=1)
        print(f"failing input: {cex['input']}\n  {cex['violation']}")
        for f in failed[:5]: print(f"failed obligation: {f['function']}: {f['obligation']}")
        print(f"VIOLATION property={pid} replay={replay}")
        rc, nviol = 1, 1
    elif failed and not undecided:
        json.dump({"property": pid, "failing_input": None, "failed_obligations": failed}, open(replay, "w"), indent=1)
        for f in failed[:5]: print(f"failed obligation: {f['function']} ({f['at']}): {f['obligation']}\n{f['detail']}")
        print(f"VIOLATION property={pid} replay={replay} no-failing-input-found")
        rc, nviol = 1, len(failed)
    elif undecided or dep_open:
        print("not proved on this tree (bounded check only):")
        for x in undecided + dep_open: print("  ", x)
        for f in failed[:5]: print(f"  open obligation: {f['function']}: {f['obligation']}")
    proved = not failed and not undecided and not dep_open
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "proof" if proved else "exploration",
          "coverage": {"obligations": obligations, "discharged": discharged, "checker_cmd": "; ".join(cmds), "trusted_base": sorted(trusted) + U.get("trusted", []) + TRUSTED,
                       "functions_under_contract": fns_under, "backends": {"verus (z3)": True, "z3/cvc5 direct": bool(U.get("smt"))}, "solver_ms": round(smt_ms), "reachability": reach_info, "units_relied_on": dep_info,
                       "extraction_edits": edits, "undecided": undecided + dep_open, "failed_obligations": [{k: f[k] for k in ("function", "obligation", "at")} for f in failed],
                       "evaluations": H["evaluations"], "distinct_nontrivial": H["distinct_nontrivial"], "samples": [s[:400] for s in H["samples"]] or ["none"],
                       "rule": U.get("rule", "random inputs from VERIF_SEED against an executable oracle; non-trivial unless the case says so"),
                       "explanation": "deductive proof of the extracted functions" if proved else "not proved on this tree; bounded concrete check only"},
          "assumptions": U.get("assumptions", []), "wall_s": round(time.time() - T0, 2), "violations": nviol}
    json.dump(ev, open(os.path.join(V, "evidence", f"{pid}.json"), "w"), indent=1)
    log("exit", rc, "proved" if proved else "not proved")
    sys.exit(rc)

TRUSTED = ["Verus 0.2026.09.13 and its bundled Z3", "vx extraction (listed edits; everything else is the source text)", "rustc's parser (syn)"]

def scan_trusted(text):
    """every external_body / uninterp / assume / admit / assume_specification in the verified file"""
    out = set()
    ls = text.split("\n")
    for i, l in enumerate(ls):
        if "external_body" in l or "verifier::external" in l or "assume_specification" in l or "external_type_specification" in l:
            nm = " ".join(x.strip() for x in ls[i:i + 3])
            m = re.search(r"(fn|struct)\s+(\w+)", nm)
            m2 = re.search(r"assume_specification[^\[]*\[([^\]]*)\]", nm)
            out.add(("assumed contract: " + (m2.group(1).strip() if m2 else m.group(2) if m else nm[:80])))
        if re.search(r"\b(assume|admit)\s*\(", l) and "spec" not in l: out.add("assume: " + l.strip()[:100])
        m = re.search(r"axiom fn (\w+)", l)
        if m: out.add("axiom: " + m.group(1))
        m = re.search(r"uninterp spec fn (\w+)", l)
        if m: out.add("uninterpreted: " + m.group(1))
    return out

def load_known():
    d = {}
    p = os.path.join(V, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) (.*)", l.strip())
            if m: d.setdefault(m.group(1), []).append(m.group(2))
    return d

def suppressed(pid, cex): return False

main()
