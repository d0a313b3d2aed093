"""Development only: generate small mutations of the library and see which the checks do not notice.

python mutate.py list FILE...               number of mutants per file
python mutate.py run OUT.jsonl SECONDS FILE...  each mutant against the checks of its file, SECONDS per check
A mutant is killed by a VIOLATION of any of these checks (first one wins); survivors are to be looked at by hand.
"""
import ast, sys, os, json, time, shutil, tempfile, signal, multiprocessing as mp, random

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = os.environ.get("MUT_SRC", "/repo/src") + "/qutip_qtrl"
CHECKS = {
    "cy_grape.py": "19 23", "grape.py": "19 23", "dump.py": "14 15 22", "io.py": "26 15", "loadparams.py": "20", "logging_utils.py": "22 20",
    "dynamics.py": "06 01 02 08 07 04 14 21 25 22 20 24 13 15", "fidcomp.py": "03 04 06 02 13 14 25 24 22", "optimconfig.py": "26 24 20 25 15 23",
    "optimizer.py": "09 10 11 13 14 12 18 24 22 25 21 23", "optimresult.py": "09 24", "propcomp.py": "01 05 02 07 06 25 24",
    "pulsegen.py": "16 17 18 25 24 23 11", "pulseoptim.py": "24 25 23 11 21 08 15 22 18", "stats.py": "13 22", "symplectic.py": "07 01",
    "termcond.py": "10 20", "tslotcomp.py": "06 01 13 14 02 22 05", "errors.py": "25",
}
CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.Is: "is not", ast.IsNot: "is", ast.In: "not in", ast.NotIn: "in"}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.Pow: "*", ast.FloorDiv: "/", ast.Mod: "*", ast.MatMult: "*"}


def mutants(path):
    text = open(path).read()
    lines = text.split("\n")
    offs = [0]
    for l in lines:
        offs.append(offs[-1] + len(l.encode()) + 1)
    raw = text.encode()
    tree = ast.parse(text)
    seg = lambda n: raw[offs[n.lineno - 1] + n.col_offset: offs[n.end_lineno - 1] + n.end_col_offset].decode()
    out = []

    def rep(n, new, what):
        a, b = offs[n.lineno - 1] + n.col_offset, offs[n.end_lineno - 1] + n.end_col_offset
        out.append((a, b, new, n.lineno, what))
    skip = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
            skip.update(id(x) for x in ast.walk(n.body[0]))
        if isinstance(n, ast.Call) and seg(n.func).startswith(("logger.", "warnings.", "print")):
            skip.update(id(x) for x in ast.walk(n))
        if isinstance(n, ast.If) and "log_level" in seg(n.test):
            skip.update(id(x) for x in ast.walk(n.test))
            skip.add(id(n))
        if isinstance(n, ast.Raise):
            skip.update(id(x) for x in ast.walk(n) if x is not n)
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "format":
            skip.update(id(x) for x in ast.walk(n) if x is not n)
        if isinstance(n, (ast.Import, ast.ImportFrom, ast.AnnAssign)):
            skip.update(id(x) for x in ast.walk(n))
    for n in ast.walk(tree):
        if id(n) in skip:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
            rep(n, "(%s %s %s)" % (seg(n.left), CMP[type(n.ops[0])], seg(n.comparators[0])), "compare")
        elif isinstance(n, ast.BoolOp):
            op, other = (" and ", " or ") if isinstance(n.op, ast.And) else (" or ", " and ")
            v = ["(%s)" % seg(x) for x in n.values]
            rep(n, "(%s)" % other.join(v), "boolop")
            for i in range(len(v)):
                rep(n, "(%s)" % op.join(v[:i] + v[i + 1:]), "drop operand %d" % i)
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub)):
            rep(n, "(%s)" % seg(n.operand), "drop " + type(n.op).__name__)
        elif isinstance(n, ast.Constant) and not isinstance(n.value, (str, bytes)) and n.value is not None and n.value is not Ellipsis:
            v = n.value
            if isinstance(v, bool):
                rep(n, str(not v), "bool")
            elif isinstance(v, int):
                rep(n, str(v + 1), "int")
            elif isinstance(v, float):
                rep(n, repr(v * 2 if v else 1.0), "float")
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN and not (isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)):
            rep(n, "((%s) %s (%s))" % (seg(n.left), BIN[type(n.op)], seg(n.right)), "arith")
        elif isinstance(n, (ast.If, ast.IfExp, ast.While)):
            if not isinstance(n, ast.While):
                rep(n.test, "True", "if True")
            rep(n.test, "False", "if False")
        elif isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and id(n.value) not in skip:
            rep(n, "pass", "drop call")
        elif isinstance(n, ast.Assign) and isinstance(n.targets[0], (ast.Attribute, ast.Subscript)):
            rep(n, "pass", "drop assign")
        elif isinstance(n, ast.AugAssign):
            rep(n, "pass", "drop augassign")
        elif isinstance(n, ast.Raise):
            rep(n, "pass", "drop raise")
        elif isinstance(n, (ast.Continue, ast.Break)):
            rep(n, "pass", "drop " + type(n).__name__)
        elif isinstance(n, ast.Call):
            f = n.func
            if isinstance(f, ast.Attribute) and not n.args and not n.keywords and f.attr in ("copy", "conj", "dag", "upper", "lower", "strip", "tr", "flatten"):
                rep(n, "(%s)" % seg(f.value), "drop ." + f.attr)
            if seg(f) in ("np.abs", "np.real", "np.imag", "np.array", "abs", "copy.copy", "copy.deepcopy", "list", "np.asarray", "float", "int") and len(n.args) == 1:
                rep(n, "(%s)" % seg(n.args[0]), "drop " + seg(f))
            if seg(f) == "range" and len(n.args) == 1:
                rep(n, "range((%s) - 1)" % seg(n.args[0]), "range")
            if seg(f) in ("min", "max"):
                rep(f, {"min": "max", "max": "min"}[seg(f)], "minmax")
            if n.keywords and id(n) not in skip:
                parts = [seg(x) for x in n.args] + [("%s=%s" % (k.arg, seg(k.value)) if k.arg else "**" + seg(k.value)) for k in n.keywords]
                for i in range(len(n.args), len(parts)):
                    rep(n, "%s(%s)" % (seg(f), ", ".join(parts[:i] + parts[i + 1:])), "drop keyword " + str(n.keywords[i - len(n.args)].arg))
        elif isinstance(n, ast.Attribute) and n.attr == "T":
            rep(n, "(%s)" % seg(n.value), "drop .T")
        elif isinstance(n, ast.Return) and n.value is not None and not isinstance(n.value, ast.Constant):
            rep(n, "return None", "return None")
    res = []
    for a, b, new, line, what in out:
        m = (raw[:a] + new.encode() + raw[b:]).decode()
        try:
            ast.parse(m)
        except SyntaxError:
            continue
        res.append(dict(file=os.path.basename(path), line=line, what=what, old=raw[a:b].decode(), new=new, text=m))
    return res


COST = dict(zip(range(1, 27), [.02, .06, .02, .045, .012, .03, .015, .005, .07, .055, .06, .07, .04, .07, .07, .004, .002, .035, .01, .0025, .03, .15, .05, .03, .004, .011]))


def child(conn, m, secs, checks):
    os.setsid()
    d = tempfile.mkdtemp(prefix="mut-")
    conn.send(d)
    shutil.copytree(SRC, d + "/qutip_qtrl", ignore=shutil.ignore_patterns("__pycache__"))
    open(d + "/qutip_qtrl/" + m["file"], "w").write(m["text"])
    sys.path[:0] = [VERIF, d]
    tempfile.tempdir = d
    os.environ["TMPDIR"] = d
    dn = os.open(os.devnull, os.O_WRONLY)
    os.dup2(dn, 1)
    os.dup2(dn, 2)
    try:
        from qv import core
        scratch = core.worker_setup()
        for c in checks:
            P = "C" + c
            mod = core.load(P)
            t0 = time.time()
            n = max(int(secs / COST[int(c)]), 10)
            to = 0
            for i in range(n):
                r = core.run_case(mod, P, 1, i, "quick", scratch, 15)
                if r["viol"]:
                    conn.send(("killed", P, r["viol"][0][0], i))
                    return
                to += r["counts"].get("timeouts", 0)
                if to > 2:
                    conn.send(("hangs", P, "", i))
                    return
                if time.time() - t0 > 4 * secs:
                    break
        conn.send(("survived", "", "", 0))
    except BaseException as e:
        conn.send(("killed", "import", repr(e)[:200], 0))


def one(args):
    m, secs, checks = args
    a, b = mp.Pipe(False)
    p = mp.get_context("fork").Process(target=child, args=(b, m, secs, checks))
    p.start()
    b.close()
    d = None
    res = ("crashed", "", "", 0)
    try:
        d = a.recv()
        if a.poll(secs * 5 * len(checks) + 60):
            res = a.recv()
        else:
            res = ("timeout", "", "", 0)
    except EOFError:
        pass
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except Exception:
        pass
    p.join()
    if d:
        shutil.rmtree(d, ignore_errors=True)
    r = {k: m[k] for k in ("file", "line", "what", "old", "new")}
    r["result"] = res
    return r


def worker(q, out):
    while True:
        x = q.get()
        if x is None:
            return
        out.put(one(x))


def main():
    cmd = sys.argv[1]
    if cmd == "list":
        tot = 0
        for f in sys.argv[2:] or sorted(CHECKS):
            n = len(mutants(SRC + "/" + f))
            tot += n
            print(f, n)
        print(tot)
        return
    outp, secs, files = sys.argv[2], float(sys.argv[3]), sys.argv[4:] or sorted(CHECKS)
    import numpy, scipy.optimize, scipy.linalg, scipy.sparse.linalg, qutip, matplotlib
    done = set()
    if os.path.exists(outp):
        for l in open(outp):
            r = json.loads(l)
            done.add((r["file"], r["line"], r["what"], r["old"], r["new"]))
    todo, keep = [], {}
    if cmd == "again":        # survivors of an earlier file, with more time
        for l in open(os.environ["FROM"]):
            r = json.loads(l)
            if r["result"][0] == "survived":
                if r["what"].startswith("drop assign") and r["old"].endswith(("= None", "= False")):
                    continue        # initial values that are set again before use
                keep.setdefault((r["file"], r["what"], r["old"], r["new"]), []).append(r["line"])
    for f in files:
        for m in mutants(SRC + "/" + f):
            k = (m["file"], m["line"], m["what"], m["old"], m["new"])
            near = keep.get((m["file"], m["what"], m["old"], m["new"]), []) if cmd == "again" else [m["line"]]
            if k in done or not any(abs(m["line"] - l) <= 25 for l in near):
                continue
            todo.append((m, secs, os.environ["CK"].split() if "CK" in os.environ else CHECKS[f].split()))
    random.Random(5).shuffle(todo)
    print(len(todo), "mutants", flush=True)
    q, out = mp.Queue(), mp.Queue()
    for t in todo:
        q.put(t)
    nw = int(os.environ.get("JOBS", "8"))
    for _ in range(nw):
        q.put(None)
    ws = [mp.Process(target=worker, args=(q, out)) for _ in range(nw)]
    for w in ws:
        w.start()
    with open(outp, "a") as fo:
        for i in range(len(todo)):
            r = out.get()
            fo.write(json.dumps(r) + "\n")
            fo.flush()
            if i % 200 == 0:
                print(i, flush=True)
    for w in ws:
        w.join()


if __name__ == "__main__":
    os.environ.update(OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MPLBACKEND="Agg", PYTHONHASHSEED="0", MPLCONFIGDIR="/opt/venv/mplconfig", PYTHONDONTWRITEBYTECODE="1")
    sys.dont_write_bytecode = True
    main()
