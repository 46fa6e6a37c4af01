#!/usr/bin/env python3
"""mutate.py [-j N] [-o OUT.jsonl] [-s SEED] [-n MAX] FILE...: systematic small changes to the given files of /repo, each run through the
checks of the file's properties on a scratch copy. Survivors are listed for review (equivalent, or a gap)."""
import warnings
warnings.simplefilter("ignore")
import ast, json, os, random, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = {
 "auxiliary.py": ["C18", "C01", "C02", "C04", "C07", "C10"], "channel_estimation.py": ["C23"], "constants.py": ["C04", "C01", "C02", "C07"], "digital_delay.py": ["C19"],
 "equalization_estimation.py": ["C24"], "eye_diagram.py": ["C20"], "psa.py": ["C30"],
 "channel/additive_noise_functions.py": ["C25", "C14"], "channel/pulse_shaping.py": ["C15", "C14", "C32"],
 "misc/help_classes.py": ["C14", "C11", "C12"], "misc/help_functions.py": ["C09", "C11"], "misc/least_squares.py": ["C31", "C24"],
 "misc/ml_decoding.py": ["C10", "C12"], "rx/checker.py": ["C17"], "rx/clock_data_recovery.py": ["C21"], "rx/ctle_model.py": ["C28", "C14"],
 "rx/decoding.py": ["C08", "C09", "C10", "C12", "C04"], "rx/demapping.py": ["C04"], "rx/ffe_dfe_model.py": ["C13"],
 "rx/least_mean_squares.py": ["C22"], "rx/lock_pattern.py": ["C16"], "rx/quantiztion.py": ["C06"], "rx/slicer.py": ["C05"],
 "rx/symbol2bin.py": ["C03"], "tx/bin2symbol.py": ["C03"], "tx/coding.py": ["C07", "C09", "C10", "C11", "C04"],
 "tx/mapping.py": ["C04"], "tx/prbs_generator.py": ["C01", "C02"], "tx/prbs_iterator.py": ["C01"],
}
CMP = {ast.Lt: ["<=", ">="], ast.LtE: ["<", ">"], ast.Gt: [">=", "<="], ast.GtE: [">", "<"], ast.Eq: ["!="], ast.NotEq: ["=="],
       ast.Is: ["is not"], ast.IsNot: ["is"], ast.In: ["not in"], ast.NotIn: ["in"]}
BIN = {ast.Add: ["-"], ast.Sub: ["+"], ast.Mult: ["/", "+"], ast.Div: ["*"], ast.FloorDiv: ["*", "%"], ast.Mod: ["//"], ast.Pow: ["*"], ast.MatMult: ["*"]}
CALL = {"floor": "ceil", "ceil": "floor", "argmax": "argmin", "argmin": "argmax", "cumsum": "cumprod", "zeros": "ones", "ones": "zeros", "max": "min",
        "min": "max", "concatenate": "hstack", "round": "floor", "abs": "negative", "mean": "median", "sum": "max", "real": "imag", "flip": "array", "any": "all", "all": "any",
        "flipud": "fliplr", "zeros_like": "ones_like", "ones_like": "zeros_like", "var": "std", "std": "var", "hstack": "concatenate"}


def muts(src):
    tree = ast.parse(src)
    lines = src.split("\n")
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l.encode()) + 1)
    b = src.encode()
    pos = lambda n: (off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset)
    txt = lambda n: b[slice(*pos(n))].decode()
    out = []

    def rep(n, new, what):
        s, e = pos(n)
        out.append((n.lineno, what + ": " + " ".join(b[s:e].decode().split())[:70] + "  =>  " + " ".join(new.split())[:70], (b[:s] + new.encode() + b[e:]).decode()))
    doc = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
            doc.add(n.body[0]); doc.add(n.body[0].value)
    for n in ast.walk(tree):
        if n in doc:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            for o in CMP.get(type(n.ops[0]), []):
                rep(n, "%s %s %s" % (txt(n.left), o, txt(n.comparators[0])), "cmp")
        elif isinstance(n, ast.BinOp):
            for o in BIN.get(type(n.op), []):
                rep(n, "(%s) %s (%s)" % (txt(n.left), o, txt(n.right)), "bin")
            rep(n, "(%s)" % txt(n.left), "left")
        elif isinstance(n, ast.BoolOp):
            o = " or " if isinstance(n.op, ast.And) else " and "
            rep(n, o.join("(%s)" % txt(v) for v in n.values), "bool")
            for i in range(len(n.values)):
                vs = [txt(v) for k, v in enumerate(n.values) if k != i]
                rep(n, (" and " if isinstance(n.op, ast.And) else " or ").join("(%s)" % v for v in vs), "drop")
        elif isinstance(n, ast.UnaryOp):
            rep(n, "(%s)" % txt(n.operand), "unary")
        elif isinstance(n, ast.Constant):
            if isinstance(n.value, bool):
                rep(n, str(not n.value), "const")
            elif isinstance(n.value, (int, float)):
                rep(n, "(%r)" % (n.value + 1), "const")
                rep(n, "(%r)" % (n.value - 1), "const")
        elif isinstance(n, ast.If):
            rep(n.test, "True", "if"); rep(n.test, "False", "if")
        elif isinstance(n, ast.IfExp):
            rep(n, "(%s)" % txt(n.body), "ifexp"); rep(n, "(%s)" % txt(n.orelse), "ifexp")
        elif isinstance(n, (ast.Assign, ast.AugAssign, ast.Expr, ast.Raise)):
            rep(n, "pass", "del")
            if isinstance(n, ast.AugAssign):
                rep(n, "%s = %s" % (txt(n.target), txt(n.value)), "aug")
        elif isinstance(n, ast.Call):
            if isinstance(n.func, ast.Attribute) and n.func.attr in CALL:
                s, e = pos(n.func)
                rep(n.func, b[s:e].decode()[:-len(n.func.attr)] + CALL[n.func.attr], "fn")
            for i, k in enumerate(n.keywords):
                if k.arg:
                    al = [txt(a) for a in n.args] + [("%s=%s" % (q.arg, txt(q.value)) if q.arg else "**" + txt(q.value)) for j, q in enumerate(n.keywords) if j != i]
                    rep(n, "%s(%s)" % (txt(n.func), ", ".join(al)), "kw")
            if len(n.args) >= 1 and isinstance(n.func, ast.Attribute) and n.func.attr not in ("array",):
                rep(n, txt(n.args[0]), "unwrap")
        elif isinstance(n, ast.Slice):
            for a in (n.lower, n.upper, n.step):
                if a is not None:
                    out.append((n.lineno, "slice: " + txt(n) + " without " + txt(a), (b[:pos(a)[0]] + b[pos(a)[1]:]).decode()))
    r, seen = [], {src}
    for l, w, t in out:
        if t in seen:
            continue
        seen.add(t)
        try:
            compile(t, "m", "exec")
        except (SyntaxError, ValueError):
            continue
        r.append((l, w, t))
    return r


def one(job):
    f, props, l, w, t = job
    d = tempfile.mkdtemp(prefix="mut_", dir="/tmp")
    try:
        r = d + "/repo"
        shutil.copytree("/repo", r, ignore=shutil.ignore_patterns(".git", "pictures", "__pycache__"))
        open(os.path.join(r, f), "w").write(t)
        res = {}
        for p in props:
            e = dict(os.environ, VERIF_REPO=r, VERIF_EVID=d, VERIF_SEED="1", VERIF_TIER="quick", TMPDIR=d)
            q = subprocess.run(["python3", ROOT + "/tools/fastcheck.py", p, "--tier", "quick"], env=e, capture_output=True, text=True)
            res[p] = q.returncode
            if q.returncode == 2 or q.returncode not in (0, 1):
                res[p + "_err"] = (q.stdout + q.stderr)[-800:]
            if q.returncode == 1 and not ALL:
                break
        return dict(file=f, line=l, what=w, res=res, caught=1 in res.values())
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    a = sys.argv[1:]
    opt = {"-j": "5", "-o": "/tmp/mut.jsonl", "-s": "1", "-n": "100000"}
    ALL = "--all" in a
    a = [x for x in a if x != "--all"]
    while a and a[0] in opt:
        opt[a[0]] = a[1]; a = a[2:]
    jobs = []
    for f in a or ["CommDspy/" + k for k in P]:
        k = f.replace("CommDspy/", "")
        props = P.get(k, ["C29", "C33"])
        ms = muts(open("/repo/" + f).read())
        random.Random(int(opt["-s"])).shuffle(ms)
        jobs += [(f, props) + m for m in ms[:int(opt["-n"])]]
    print(len(jobs), "mutants", flush=True)
    done = set()
    if os.path.exists(opt["-o"]):
        for x in open(opt["-o"]):
            x = json.loads(x); done.add((x["file"], x["line"], x["what"]))
    jobs = [j for j in jobs if (j[0], j[2], j[3]) not in done]
    n = [0, 0]
    with ThreadPoolExecutor(int(opt["-j"])) as ex, open(opt["-o"], "a") as o:
        for x in ex.map(one, jobs):
            n[x["caught"]] += 1
            o.write(json.dumps(x) + "\n"); o.flush()
            if not x["caught"] or any(k.endswith("_err") for k in x["res"]):
                print("SURVIVED" if not x["caught"] else "ERR", x["file"], x["line"], x["what"], {k: v for k, v in x["res"].items()}, flush=True)
    print("survived", n[0], "caught", n[1])
