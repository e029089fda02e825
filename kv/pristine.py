"""Runs histories of calls of the package, each in a process of its own that has called nothing of the package before.
A server imports the package once; for each request (a JSON line: list of operations) it forks a child that runs them."""
import json
import os
import subprocess
import sys
import traceback

PY = sys.executable


def enc(v, depth=0):
    """JSON form of a result, exact"""
    import numpy as np
    if isinstance(v, np.ndarray):
        return [enc(x, depth + 1) for x in v.tolist()] if v.ndim else enc(v.item(), depth + 1)
    if isinstance(v, (bool, np.bool_)):
        return bool(v)
    if isinstance(v, (int, np.integer)):
        return float(v) if abs(int(v)) < 2**53 else str(v)
    if isinstance(v, (float, np.floating)):
        return float(v)
    if isinstance(v, (complex, np.complexfloating)):
        return {"re": float(v.real), "im": float(v.imag)}
    if isinstance(v, (list, tuple)):
        return [enc(x, depth + 1) for x in v]
    if v is None or isinstance(v, str):
        return v
    if isinstance(v, dict) and depth < 6:
        return {str(k): enc(x, depth + 1) for k, x in v.items()}
    return {"type": type(v).__name__}


def dec(v):
    import numpy as np
    if isinstance(v, dict):
        if "a" in v:
            return np.array(v["a"], dtype=v.get("dtype", float))
        if "t" in v:
            return tuple(dec(x) for x in v["t"])
        if "l" in v:
            return [dec(x) for x in v["l"]]
        if "np" in v:
            return np.float64(v["np"])
    return v


def clobber(v):
    """what a caller may do with a result that is his"""
    import numpy as np
    if isinstance(v, np.ndarray) and v.ndim and v.flags.writeable and v.dtype.kind in "fc":
        v[...] = -12345.0
    elif isinstance(v, list):
        for i in range(len(v)):
            v[i] = -12345.0


def fields(o):
    return {k: enc(v) for k, v in vars(o).items()}


def evaluate(fs, times):
    """values of the returned functions; evaluated twice with the first results overwritten in between"""
    times = dec(times)
    fs = fs if isinstance(fs, (list, tuple)) else (fs,)
    keep = enc(times)
    one = []
    raw = []
    for f in fs:
        if callable(f):
            r = f(times)
            raw.append(r)
            one.append(enc(r))
        else:
            one.append(enc(f))
    for r in raw:
        if r is not times:
            clobber(r)
    two = [enc(f(times)) if callable(f) else enc(f) for f in fs]
    if not same(one, two):
        return {"inconsistent": [one, two]}
    if not same(keep, enc(times)):
        return {"argument changed": [keep, enc(times)]}
    return one


def same(x, y, rel=1e-12):
    if isinstance(x, float) and isinstance(y, float):
        if x != x or y != y:
            return x != x and y != y
        return x == y or abs(x - y) <= rel * max(abs(x), abs(y))
    if isinstance(x, list) and isinstance(y, list):
        return len(x) == len(y) and all(same(a, b, rel) for a, b in zip(x, y))
    if isinstance(x, dict) and isinstance(y, dict):
        return x.keys() == y.keys() and all(same(x[k], y[k], rel) for k in x)
    return type(x) is type(y) and x == y


def run_ops(ops):
    import importlib
    import warnings
    warnings.simplefilter("ignore")
    slots = {}
    out = []

    def look(path):
        m, _, n = path.rpartition(".")
        return getattr(importlib.import_module("kerrgeopy." + m), n)
    for op in ops:
        kind = op[0]
        changed = None
        try:
            if kind == "call":
                _, path, args, kw = op
                args, kw = [dec(x) for x in args], {k: dec(v) for k, v in kw.items()}
                before = enc([args, kw])
                r = look(path)(*args, **kw)
                res = enc(r)
                if not any(r is x for x in args):
                    clobber(r)
                if not same(before, enc([args, kw])):
                    changed = "arguments"
            elif kind == "new":
                _, slot, path, args, kw = op
                args, kw = [dec(x) for x in args], {k: dec(v) for k, v in kw.items()}
                before = enc([args, kw])
                slots.pop(slot, None)
                o = look(path)(*args, **kw)
                slots[slot] = o
                res = fields(o)
                if not same(before, enc([args, kw])):
                    changed = "arguments"
            elif kind == "chain":
                _, path, args, kw, name, margs, times = op
                r = getattr(look(path)(*[dec(x) for x in args], **{k: dec(v) for k, v in kw.items()}), name)(*[dec(x) for x in margs])
                res = enc(r) if times is None else evaluate(r, times)
            elif kind == "do":
                _, slot, name, args, kw, times = op
                args, kw = [dec(x) for x in args], {k: dec(v) for k, v in kw.items()}
                if slot not in slots:
                    out.append(["skip"])
                    continue
                o = slots[slot]
                before, fb = enc([args, kw]), fields(o)
                r = getattr(o, name)(*args, **kw)
                if times is None:
                    res = enc(r)
                    clobber(r)
                else:
                    res = evaluate(r, times)
                fa = fields(o)
                if not same(before, enc([args, kw])):
                    changed = "arguments"
                bad = [k for k in fb if k not in fa or not same(fb[k], fa[k])]
                if bad:
                    changed = f"attributes {bad} of the object"
            out.append(["ok", res, changed])
        except Exception as e:
            out.append(["exc", type(e).__name__, changed])
    return out


def constants():
    """module-level numbers and strings of the package"""
    import sys as s
    out = {}
    for m, mod in list(s.modules.items()):
        if m == "kerrgeopy" or m.startswith("kerrgeopy."):
            for k, v in vars(mod).items():
                if isinstance(v, (int, float, str)) and not k.startswith("__"):
                    out[m + "." + k] = v
    return out


def server():
    sys.path.insert(0, "/repo")
    import importlib
    for m in ("units", "constants", "frequencies", "initial_conditions", "spacetime", "orbit", "stable", "plunge"):
        importlib.import_module("kerrgeopy." + m)
    for line in sys.stdin:
        ops = json.loads(line)
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                c = constants()
                out = run_ops(ops)
                d = constants()
                msg = json.dumps([out, [k for k in c if c[k] != d.get(k) and not (c[k] != c[k] and d.get(k) != d.get(k))]])
            except BaseException:
                msg = json.dumps([None, traceback.format_exc(limit=3)])
            with os.fdopen(w, "w") as f:
                f.write(msg)
            os._exit(0)
        os.close(w)
        with os.fdopen(r) as f:
            msg = f.read()
        os.waitpid(pid, 0)
        sys.stdout.write(msg + "\n")
        sys.stdout.flush()


class Pristine:
    def __init__(self):
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONWARNINGS="ignore")
        self.p = subprocess.Popen([PY, "-W", "ignore", os.path.abspath(__file__)], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                                  text=True, env=env)

    def __call__(self, ops):
        self.p.stdin.write(json.dumps(ops) + "\n")
        self.p.stdin.flush()
        line = self.p.stdout.readline()
        if not line:
            raise RuntimeError("pristine server ended")
        out, changed = json.loads(line)
        if out is None:
            raise RuntimeError(changed)
        return out, changed

    def close(self):
        self.p.stdin.close()
        self.p.wait()


class Pool:
    """several servers working side by side; histories still run each in a process of its own"""

    def __init__(self, n):
        import queue
        from concurrent.futures import ThreadPoolExecutor
        self.free = queue.Queue()
        for _ in range(n):
            self.free.put(Pristine())
        self.threads = ThreadPoolExecutor(n)

    def __call__(self, histories):
        return list(self.threads.map(self.one, histories))

    def one(self, ops):
        s = self.free.get()
        try:
            return s(ops)
        finally:
            self.free.put(s if s.p.poll() is None else Pristine())

    def close(self):
        self.threads.shutdown()
        while not self.free.empty():
            self.free.get().close()


if __name__ == "__main__":
    server()
