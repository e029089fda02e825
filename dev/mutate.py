"""Development helper: random single-edit mutants of /repo that pass the tests, and which check notices them.

usage: mutate.py SEED COUNT OUT.jsonl   (scratch copies under /tmp/mu; /repo is never changed)"""
import ast, json, os, random, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

FILES = {"constants.py": "C01 C02 C05 C18 C03 C04 C09 C17 C20 C16", "frequencies.py": "C07 C08 C06 C19 C03 C04 C20 C16", "initial_conditions.py": "C13 C14 C17 C20 C18",
         "orbit.py": "C11 C12 C21 C16 C14 C22 C17 C04 C20", "plunge.py": "C09 C10 C18 C11 C16 C04 C20", "spacetime.py": "C15 C06 C05 C16 C22 C20 C04",
         "stable.py": "C08 C11 C07 C03 C16 C04 C12 C20", "units.py": "C16 C04"}
ALL = [f"C{i:02d}" for i in range(1, 23)]


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)


def spans(src):
    """(start, end, replacement) candidates"""
    tree = ast.parse(src)
    lines = src.split("\n")
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l.encode()) + 1)
    b = src.encode()

    def pos(n):
        return off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset

    def txt(n):
        s, e = pos(n)
        return b[s:e].decode()
    out = []
    doc = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
            doc.add(n.body[0].value)
            doc.add(n.body[0])
    for fn in [n for n in ast.walk(tree) if isinstance(n, ast.FunctionDef)]:
        names = [a.arg for a in fn.args.args if a.arg != "self"]
        names += sorted({t.id for n in ast.walk(fn) if isinstance(n, ast.Assign) for t0 in n.targets for t in ast.walk(t0) if isinstance(t, ast.Name)})
        for d in fn.args.defaults:
            if isinstance(d, ast.Constant) and isinstance(d.value, bool):
                out.append((*pos(d), str(not d.value), "default"))
        for st in fn.body:
            for n in ast.walk(st):
                if n in doc or not hasattr(n, "lineno"):
                    continue
                if isinstance(n, ast.Constant) and not isinstance(n.value, (str, bytes)) and n.value is not None:
                    v = n.value
                    if isinstance(v, bool):
                        out.append((*pos(n), str(not v), "const"))
                    elif isinstance(v, int):
                        out.append((*pos(n), str(v + 1), "const"))
                        out.append((*pos(n), str(v - 1) if v else "1", "const"))
                    elif isinstance(v, float):
                        out.append((*pos(n), repr(v * 1.5), "const"))
                elif isinstance(n, ast.BinOp):
                    if isinstance(n.op, (ast.Add, ast.Mult, ast.Div)) and "f" + txt(n)[:1] not in ("f'", 'f"'):
                        own = [a.arg for a in fn.args.args if a.arg != "self"] + sorted({t.id for t in ast.walk(n) if isinstance(t, ast.Name)} & set(names))
                        for m in own:
                            for c in ("{0} * {0} < 2500", "{0} * {0} > 1e-6", "{0} < 0.93", "{0} > -0.93", "{0} * {0} < 1e5"):
                                for v in ("({0}) * 1.001", "-({0})", "({0}) + 0.01"):
                                    out.append((*pos(n), f"(({txt(n)}) if {c.format(m)} else {v.format(txt(n))})", "rare"))
                    l, r = txt(n.left), txt(n.right)
                    op = {ast.Add: ["-"], ast.Sub: ["+"], ast.Mult: ["/"], ast.Div: ["*"], ast.Pow: [], ast.Mod: []}.get(type(n.op), [])
                    for o in op:
                        out.append((*pos(n), f"({l}) {o} ({r})", "binop"))
                    if isinstance(n.op, (ast.Add, ast.Sub, ast.Mult)):
                        out.append((*pos(n), f"({l})", "drop"))
                elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not)):
                    out.append((*pos(n), f"({txt(n.operand)})", "unary"))
                elif isinstance(n, ast.Compare) and len(n.ops) == 1:
                    l, r = txt(n.left), txt(n.comparators[0])
                    for o in {ast.Lt: ["<=", ">"], ast.LtE: ["<"], ast.Gt: [">=", "<"], ast.GtE: [">"], ast.Eq: ["!="], ast.NotEq: ["=="], ast.Is: ["is not"], ast.IsNot: ["is"]}.get(type(n.ops[0]), []):
                        out.append((*pos(n), f"({l} {o} {r})", "compare"))
                elif isinstance(n, ast.BoolOp):
                    o = " or " if isinstance(n.op, ast.And) else " and "
                    out.append((*pos(n), "(" + o.join(f"({txt(v)})" for v in n.values) + ")", "bool"))
                    for v in n.values:
                        out.append((*pos(n), f"({txt(v)})", "bool"))
                elif isinstance(n, ast.Call):
                    f = txt(n.func)
                    if len(n.args) >= 2:
                        for i in range(len(n.args) - 1):
                            x, y = n.args[i], n.args[i + 1]
                            out.append((pos(x)[0], pos(y)[1], f"{txt(y)}, {txt(x)}", "swap"))
                    if len(n.args) == 1 and not n.keywords:
                        out.append((*pos(n), f"({txt(n.args[0])})", "unwrap"))
                    sw = {"sin": "cos", "cos": "sin", "min": "max", "max": "min", "arccos": "arcsin"}
                    if isinstance(n.func, ast.Name) and n.func.id in sw:
                        out.append((*pos(n.func), sw[n.func.id], "fn"))
                    for k in n.keywords:
                        if k.arg:
                            pass
                elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in names:
                    for m in names:
                        if m != n.id:
                            out.append((*pos(n), m, "name"))
                elif isinstance(n, ast.If):
                    out.append((*pos(n.test), f"(not ({txt(n.test)}))", "if"))
                    out.append((*pos(n.test), "False", "if"))
                elif isinstance(n, (ast.Assign, ast.AugAssign, ast.Expr, ast.Raise)) and n in fn.body:
                    out.append((*pos(n), "pass", "delete"))
    by = {}
    for o in out:
        by.setdefault(o[3], []).append(o)
    return b, by


def make(rng, files):
    f = rng.choices(list(files), weights=[os.path.getsize(f"/repo/kerrgeopy/{x}") for x in files])[0]
    b, by = spans(open(f"/repo/kerrgeopy/{f}").read())
    kinds = list(by)
    if os.environ.get("KIND"):
        kinds = [k for k in kinds if k in os.environ["KIND"].split(",")]
    k = rng.choice(kinds)
    s, e, new, kind = rng.choice(by[k])
    return f, b[:s] + new.encode() + b[e:], kind


def one(job):
    i, f, text, kind = job
    w = f"/tmp/mu/{i}"
    shutil.rmtree(w, ignore_errors=True)
    shutil.copytree("/repo", w, symlinks=True)
    open(f"{w}/kerrgeopy/{f}", "wb").write(text)
    rec = {"id": i, "file": f, "kind": kind}
    try:
        try:
            compile(text, f, "exec")
        except SyntaxError:
            return dict(rec, result="syntax")
        rec["diff"] = "\n".join(l for l in sh(f"git -C {w} diff -U0 -w").stdout.splitlines() if l[:1] in "+-" and l[:3] not in ("+++", "---"))
        if not rec["diff"]:
            return dict(rec, result="same")
        r = sh(f"export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MPLBACKEND=Agg PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1; cd {w} && timeout 400 /opt/venv/bin/python -m pytest tests -q -p no:cacheprovider --timeout=120 -o junit_family=xunit2 --junitxml={w}/j.xml; /opt/venv/bin/python /opt/vp/results.py {w}/o.json junit:{w}/j.xml")
        try:
            res = json.load(open(f"{w}/o.json"))
            bad = [x for x in json.load(open("/opt/vp/BASELINE.json"))["stable"] if x not in res["passed"]]
        except Exception:
            bad = ["no result"]
        if bad:
            return dict(rec, result="killed by tests")
        order = FILES[f].split()
        order += [p for p in ALL if p not in order]
        notes = []
        for p in order:
            r = sh(f"unshare -Urm bash -c 'mount --bind {w} /repo && mount --bind {os.environ.get("VCOPY", "/verif")} /verif && cd /verif && VERIF_SEED=1 timeout 900 ./check {p} quick'")
            v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
            if v:
                return dict(rec, result=f"caught by {p}", weak="no-failing" in v[0] and all("no-failing" in x for x in v))
            if r.returncode not in (0, 1):
                notes.append(f"{p} rc {r.returncode} {r.stderr[-200:]}")
        return dict(rec, result="SURVIVED", notes=notes)
    finally:
        shutil.rmtree(w, ignore_errors=True)


if __name__ == "__main__":
    seed, count, outp = int(sys.argv[1]), int(sys.argv[2]), sys.argv[3]
    files = [x for x in FILES if len(sys.argv) < 5 or x in sys.argv[4].split(",")]
    rng = random.Random(seed)
    jobs, seen = [], set()
    while len(jobs) < count:
        f, t, k = make(rng, files)
        if (f, t) in seen:
            continue
        seen.add((f, t))
        jobs.append((f"m{seed}_{len(jobs)}", f, t, k))
    with ThreadPoolExecutor(int(os.environ.get("J", "6"))) as ex, open(outp, "a") as o:
        for r in ex.map(one, jobs):
            o.write(json.dumps(r) + "\n")
            o.flush()
