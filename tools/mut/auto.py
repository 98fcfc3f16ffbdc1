#!/usr/bin/env python3
"""auto.py SEED N [FILE ...]: random syntactic changes of the library in scratch copies; the checks anchored to the file run until one
reports it. Prints one line per change; survivors are to be read by hand (equivalent, outside of the claims, or a gap)."""
import sys, os, ast, random, shutil, subprocess, json, time
HERE = os.path.dirname(os.path.abspath(__file__)); VERIF = os.path.dirname(os.path.dirname(HERE))
SRC = os.environ.get("MUT_SRC", "/repo/src"); PK = "quocslib/"
SKIP = ("Legacy", "test_", "__init__", "AlgorithmTemplate", "AbstractHandleExit", "jax_utils", "GradientFreeTemplate")
props = [json.loads(l) for l in open(VERIF + "/properties.jsonl")]
anch = {p["id"]: p["anchors"]["files"] for p in props}
def checks(f):
    a = [p for p, fs in anch.items() if "src/quocslib/" + f in fs]
    n = {p: len(anch[p]) for p in anch}
    first = sorted(a, key=lambda p: n[p])
    return first + ([c for c in ("C30", "C01") if c not in a])
def spans(t, tree):
    off = [0]
    for l in t.splitlines(True): off.append(off[-1] + len(l.encode()))
    b = t.encode()
    def sp(n): return off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset
    out = []
    def src(n): s, e = sp(n); return b[s:e].decode()
    CM = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.Is: "is not", ast.IsNot: "is", ast.In: "not in", ast.NotIn: "in"}
    BM = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.Pow: "*", ast.MatMult: "*"}
    docs = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant): docs.add(n.body[0])
    def logging(n):
        s = src(n); return any(k in s for k in ("print_logger", "logger.", "print(", "super().__init__", "raise "))
    for n in ast.walk(tree):
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CM:
            if "__main__" in src(n): continue
            out.append((sp(n), "(%s %s %s)" % (src(n.left), CM[type(n.ops[0])], src(n.comparators[0])), n.lineno))
        elif isinstance(n, ast.BinOp) and type(n.op) in BM and not (isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)) and not any(isinstance(m, (ast.JoinedStr,)) or isinstance(m, ast.Constant) and isinstance(m.value, str) for m in ast.walk(n)):
            out.append((sp(n), "(%s %s %s)" % (src(n.left), BM[type(n.op)], src(n.right)), n.lineno))
        elif isinstance(n, ast.Constant) and isinstance(n.value, bool): out.append((sp(n), str(not n.value), n.lineno))
        elif isinstance(n, ast.Constant) and isinstance(n.value, int): out.append((sp(n), str(n.value + 1), n.lineno))
        elif isinstance(n, ast.Constant) and isinstance(n.value, float): out.append((sp(n), repr(n.value * 1.5 if n.value else 0.1), n.lineno))
        elif isinstance(n, ast.BoolOp): out.append((sp(n), "(" + (" and " if isinstance(n.op, ast.Or) else " or ").join("(%s)" % src(v) for v in n.values) + ")", n.lineno))
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub)): out.append((sp(n), "(%s)" % src(n.operand), n.lineno))
        elif isinstance(n, (ast.If, ast.IfExp)): out.append((sp(n.test), "True", n.lineno)); out.append((sp(n.test), "False", n.lineno))
        elif isinstance(n, (ast.Assign, ast.AugAssign, ast.Expr)) and n not in docs and not logging(n):
            out.append((sp(n), "pass", n.lineno))
        elif isinstance(n, ast.Call) and n.keywords and not logging(n):
            k = random.choice(n.keywords); s, e = sp(k); t0 = b[:s].decode().rstrip()
            if t0.endswith(","): out.append(((len(t0[:-1].encode()), e), "", n.lineno))
        elif isinstance(n, ast.Call) and len(n.args) >= 2 and not logging(n):
            out.append(((sp(n.args[0])[0], sp(n.args[1])[1]), "%s, %s" % (src(n.args[1]), src(n.args[0])), n.lineno))
    return b, out
if __name__ == "__main__":
    seed, N = int(sys.argv[1]), int(sys.argv[2]); want = sys.argv[3:]
    random.seed(seed); pool = []
    for r, _, fs in os.walk(SRC + "/" + PK):
        for f in fs:
            rel = os.path.relpath(os.path.join(r, f), SRC + "/" + PK)
            if not f.endswith(".py") or any(k in rel for k in SKIP) or (want and not any(w in rel for w in want)): continue
            t = open(os.path.join(r, f)).read(); b, out = spans(t, ast.parse(t))
            pool += [(rel, o) for o in out]
    pool.sort(key=str); random.shuffle(pool)
    print("pool", len(pool), flush=True); done = 0
    for rel, ((s, e), new, line) in pool:
        if done >= N: break
        b = open(SRC + "/" + PK + rel, "rb").read(); nb = b[:s] + new.encode() + b[e:]
        try: compile(nb, rel, "exec")
        except SyntaxError: continue
        done += 1
        d = "/tmp/am/s%d_%d" % (seed, done); shutil.rmtree(d, ignore_errors=True); os.makedirs(d); subprocess.check_call(["cp", "-a", SRC, d + "/src"])
        open(d + "/src/" + PK + rel, "wb").write(nb); t0 = time.time(); res = "SURVIVED"
        for c in checks(rel):
            r = subprocess.run(["bash", VERIF + "/check.sh", c], env={**os.environ, "VF_REPO": d, "VERIF_SEED": "1", "VERIF_TIER": "quick"}, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode: res = "%s rc%d" % (c, r.returncode); break
        print("%d %s:%d  %s -> %s | %s (%.0fs)" % (done, rel, line, b[s:e].decode()[:70].replace("\n", " "), new[:70].replace("\n", " "), res, time.time() - t0), flush=True)
        shutil.rmtree(d)
