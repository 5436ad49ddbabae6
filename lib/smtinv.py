"""SMT obligations of C06: the closed forms that the code was proved (by Verus) to compute are the
inverse, over the reals.  Input: the `sym` section of an extraction report."""
import itertools, subprocess, tempfile, os, time

def det_leibniz(n):
    ts = []
    for p in itertools.permutations(range(n)):
        inv = sum(1 for i in range(n) for j in range(i + 1, n) if p[i] > p[j])
        f = " ".join(f"a{i}{p[i]}" for i in range(n))
        t = f"(* {f})" if n > 1 else f
        ts.append(t if inv % 2 == 0 else f"(- {t})")
    return f"(+ {' '.join(ts)})" if len(ts) > 1 else ts[0]

def solve(text, timeout=60):
    """-> (verdict, solver, seconds).  unsat from either solver discharges; both are tried."""
    d = tempfile.mkdtemp(prefix="vxsmt")
    f = os.path.join(d, "q.smt2")
    open(f, "w").write(text)
    res = []
    try:
        for name, cmd in (("z3", ["z3", f"-T:{timeout}", f]), ("cvc5", ["cvc5", f"--tlimit={timeout*1000}", f])):
            t = time.time()
            r = subprocess.run(cmd, capture_output=True, text=True)
            out = (r.stdout.strip().split("\n") or [""])[0]
            res.append((out, name, time.time() - t))
            if out == "unsat": break
            if out == "sat": break
    finally:
        os.unlink(f); os.rmdir(d)
    for w in ("unsat", "sat"):
        for r in res:
            if r[0] == w: return r
    return ("unknown", "z3+cvc5", sum(r[2] for r in res))

def obligations(sym):
    n, pre = sym["n"], []
    for i in range(n):
        for j in range(n): pre.append(f"(declare-const a{i}{j} Real)")
    for nm in sym["names"]: pre.append(f"(define-fun {nm['name']} () Real {nm['smt']})")
    pre.append(f"(define-fun det () Real {det_leibniz(n)})")
    okc = [p["cond"] for p in sym["paths"] if p["ok"]]
    ok = "false" if not okc else (okc[0] if len(okc) == 1 else f"(or {' '.join(okc)})")
    head = "(set-logic ALL)\n" + "\n".join(pre) + "\n"
    obs = []
    obs.append((f"{sym['prefix']}: succeeds exactly when the determinant is non-zero", head + f"(assert (not (= {ok} (not (= det 0.0)))))\n(check-sat)\n"))
    for nm in sym["names"]:
        for d in nm["divs"]:
            obs.append((f"{sym['prefix']}: divisor {nm['name']} non-zero", head + f"(assert {ok})(assert (= {d} 0.0))\n(check-sat)\n"))
    for k, p in enumerate(sym["paths"]):
        if not p["ok"]: continue
        dens = {c["den"] for r in p["cells"] for c in r}
        divs = {d for r in p["cells"] for c in r for d in c["divs"]}
        for d in sorted(divs):
            obs.append((f"{sym['prefix']}: divisor non-zero on the success path", head + f"(assert {p['cond']})(assert (= {d} 0.0))\n(check-sat)\n"))
        same = len(dens) == 1
        for side in ("left", "right"):
            for i in range(n):
                for j in range(n):
                    key = "num" if same else "smt"
                    if side == "left": s = [f"(* {p['cells'][i][k2][key]} a{k2}{j})" for k2 in range(n)]
                    else: s = [f"(* a{i}{k2} {p['cells'][k2][j][key]})" for k2 in range(n)]
                    rhs = (list(dens)[0] if same else "1.0") if i == j else "0.0"
                    obs.append((f"{sym['prefix']}: ({side}) product element ({i},{j}) is {'1' if i==j else '0'}",
                                head + f"(assert {p['cond']})(assert (not (= (+ {' '.join(s)} 0.0) {rhs})))\n(check-sat)\n"))
    return obs

def fixed():
    """1 x 1: the contract of try_inplace_invert states result = 1/a for a != 0"""
    return [("1x1: (1/a)*a = 1", "(set-logic ALL)\n(declare-const a Real)\n(assert (not (= a 0.0)))(assert (not (= (* (/ 1.0 a) a) 1.0)))\n(check-sat)\n")]
