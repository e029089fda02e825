"""kv: contract-based deductive verification of kerrgeopy.  python -m kv.run --property C15"""
import argparse
import importlib
import json
import os
import random
import sys
import time
import traceback
import warnings

sys.dont_write_bytecode = True
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
warnings.filterwarnings("ignore")


def known_findings(pid):
    out = []
    p = os.path.join(VERIF, "known_findings.jsonl")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line:
                d = json.loads(line)
                if d.get("status") == "known" and d["property"] == pid:
                    out.append(d)
    return out


def jsonable(x):
    import numpy as np
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [jsonable(v) for v in x]
    if isinstance(x, (str, bool, int)) or x is None:
        return x
    if isinstance(x, np.generic):
        return jsonable(x.item())
    if isinstance(x, float):
        return x
    if isinstance(x, complex):
        return [x.real, x.imag]
    try:
        return float(x)
    except Exception:
        return str(x)


def outside(prop, inp):
    """parameters of an orbit that is not stable: outside the precondition of every property about stable orbits"""
    from kv import spec
    from kv.props.base import std
    if prop.id in ("C04", "C05", "C20") or not all(isinstance(inp.get(k), (int, float)) for k in "apex") or inp.get("kind", "stable") != "stable":
        return False
    a, x = std(float(inp["a"]), float(inp["x"]))
    e = float(inp["e"])
    return abs(a) < 1 and (0 <= e < 1 and not spec.stable(a, float(inp["p"]), e, x) or e == 1 and not spec._gap(a, float(inp["p"]), 1, x) > 0)


def concrete(prop, inp):
    """run the concrete contract on one input -> list of violation messages"""
    import numpy as np
    from kv import terms as T
    with np.errstate(all="ignore"), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            msgs = [] if outside(prop, inp) else prop.check(inp)
        except T.Unsupported:
            msgs = []           # an artefact of the engine, no behaviour of the code
        except Exception as e:
            msgs = [f"{type(e).__name__}: {e} at " + traceback.format_exc(limit=-2).strip().replace("\n", " | ")[-300:]]
    return [m for m in (msgs or []) if m]


def write_replay(pid, n, data):
    d = os.path.join(VERIF, "replay")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, f"{pid}-{n}.json")
    with open(p, "w") as f:
        json.dump(jsonable(data), f, indent=1)
    return os.path.relpath(p, VERIF)


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("--property", required=True)
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--verbose", "-v", action="store_true")
    ap.add_argument("--no-vc", action="store_true")
    ap.add_argument("--no-monitor", action="store_true")
    ap.add_argument("--vc", help="only VCs whose name contains this")
    a = ap.parse_args(argv)
    sys.setrecursionlimit(20000)
    seed = int(os.environ.get("VERIF_SEED", "1"))
    pid = a.property
    t0 = time.time()
    from kv import prove, smt, terms as T, patch, hunt
    patch.load()
    mod = importlib.import_module(f"kv.props.{pid.lower()}")
    prop = mod.PROP
    if a.replay:
        d = json.load(open(a.replay))
        msgs = concrete(prop, d["input"])
        print("\n".join(msgs) or "no violation on this input")
        return 1 if msgs else 0
    thorough = a.tier == "thorough"
    vcs = [] if a.no_vc else prop.vcs(a.tier)
    if a.vc:
        vcs = [v for v in vcs if a.vc in v.name]
    records = []
    violations = []          # (kind, data)
    vc_time = {}
    budget = getattr(prop, "vc_seconds", 240) * (2.0 if thorough else 1)
    for vc in vcs:
        t1 = time.time()
        vc.nsamples = vc.nsamples * (2 if thorough else 1)
        try:
            rs = vc.run(seed, deadline=t0 + budget)
        except T.Unsupported as e:
            from kv.vc import Record
            rs = [Record(vc.name, "vc generation", "", "unsupported", "", str(e)[:200], functions=vc.functions)]
        except Exception as e:
            from kv.vc import Record
            rs = [Record(vc.name, "vc generation", "", "unsupported", "",
                         f"{type(e).__name__}: {e} " + traceback.format_exc(limit=-3)[-400:], functions=vc.functions)]
        vc_time[vc.name] = round(time.time() - t1, 2)
        for r in rs:
            r.vcobj = vc
        records += rs
    # ---- refuted obligations are replayed on the real code
    confirmed = 0
    seen_vc = {}
    for r in records:
        if r.status != "refuted":
            continue
        inp = None
        msgs = []
        if r.vcobj.concretize and r.sample is not None:
            try:
                inp = r.vcobj.concretize({k: float(v) for k, v in r.sample.items()})
            except Exception:
                inp = None
            if inp is not None and seen_vc.get(r.vc, 0) < 12:
                seen_vc[r.vc] = seen_vc.get(r.vc, 0) + 1
                msgs = concrete(prop, inp)
        r.replayed = bool(msgs)
        data = {"property": pid, "vc": r.vc, "obligation": r.name, "path": r.path, "functions": list(r.functions),
                "term_level_sample": r.sample, "deviation": r.deviation, "input": inp, "messages": msgs, "note": r.note,
                "replay_cmd": f"/opt/venv/bin/python -m kv.run --property {pid} --replay <this file>"}
        if msgs:
            confirmed += 1
            violations.append(("confirmed", data))
        elif r.how == "numeric" and r.deviation is not None and (r.deviation < 1e-5 or inp is None and not getattr(
                prop, "quiet_unreplayed", False)):
            r.suspect = data
        else:
            r.status = "undecided"
            r.note = "refuted on a term-level sample but the real code satisfies the contract there: " + r.note
    # ---- what could not be decided is tried on the samples that reach it
    tried = {}
    t1 = time.time()
    for r in records:
        if r.status not in ("unsupported", "undecided") or r.sample is None or not r.vcobj.concretize:
            continue
        for smp in [r.sample] + getattr(r, "more", []):
            key = (r.vc, tuple(sorted((k, float(v)) for k, v in smp.items())))
            if key in tried or sum(k[0] == r.vc for k in tried) >= 12 or time.time() - t1 > 60:
                continue
            tried[key] = True
            try:
                inp = r.vcobj.concretize({k: float(v) for k, v in smp.items()})
            except Exception:
                continue
            msgs = concrete(prop, inp)
            if msgs:
                violations.append(("confirmed", {
                    "property": pid, "vc": r.vc, "obligation": r.name, "path": r.path, "functions": list(r.functions), "input": inp,
                    "messages": msgs, "note": "not discharged; fails on an input reaching the path: " + r.note,
                    "replay_cmd": f"/opt/venv/bin/python -m kv.run --property {pid} --replay <this file>"}))
                break
    # ---- concrete contracts (runtime monitors on the real code): bounded complement
    n_eval = 0
    distinct = set()
    samples = []
    findings = known_findings(pid)
    found = []
    if not a.no_monitor:
        rng = random.Random(f"{seed}:{pid}:monitor")
        limit = getattr(prop, "monitor_seconds", 40) * (4 if thorough else 1)
        t1 = time.time()
        nviol = 0
        for inp in prop.cases(rng, a.tier):
            n_eval += 1
            key = json.dumps(jsonable(inp), sort_keys=True)
            distinct.add(key)
            if len(samples) < 3 or n_eval % 97 == 0 and len(samples) < 8:
                samples.append(jsonable(inp))
            msgs = concrete(prop, inp)
            if msgs:
                violations.append(("confirmed", {"property": pid, "obligation": "concrete contract", "input": inp,
                                                 "messages": msgs,
                                                 "replay_cmd": f"/opt/venv/bin/python -m kv.run --property {pid} "
                                                               "--replay <this file>"}))
                nviol += 1
                if nviol >= 5:
                    break
            if time.time() - t1 > limit:
                break
        for f in findings:
            msgs = concrete(prop, f["input"])
            if msgs:
                found.append((f, msgs))
    for f, msgs in found:
        print(f"KNOWN-FINDING: property={pid} {f['what']}")
    suspects = [r for r in records if getattr(r, "suspect", None)]
    if suspects and not any(k == "confirmed" for k, _ in violations):
        for r in suspects[:3]:
            violations.append(("unreplayed", r.suspect))
    # ---- verdict
    stat = {}
    for r in records:
        k = r.how if r.status == "proved" else r.status
        stat[k] = stat.get(k, 0) + 1
    obligations = sum(1 for r in records)
    discharged = sum(1 for r in records if r.status == "proved")
    if vcs and discharged == 0 and not violations:
        print(f"{pid}: note: no obligation was discharged; only the bounded contracts stand", file=sys.stderr)
    exit_code = 0
    for n, (kind, data) in enumerate(violations[:6]):
        rp = write_replay(pid, n, data)
        tail = "" if kind == "confirmed" else " no-failing-input-found"
        what = data.get("messages") or [data.get("obligation")]
        print(f"  {data.get('vc', 'monitor')}: {data.get('obligation')}: {str(what[0])[:300]} input={json.dumps(jsonable(data.get('input')))[:300]}")
        print(f"VIOLATION property={pid} replay={rp}{tail}")
        exit_code = 1
    if not vcs and n_eval == 0:
        print(f"{pid}: nothing was checked", file=sys.stderr)
        exit_code = 3
    under = {}
    for r in records:
        for f in r.functions:
            u = under.setdefault(f, {"proved": 0, "not_proved": 0})
            u["proved" if r.status == "proved" else "not_proved"] += 1
    ev = {
        "property": pid, "tier": a.tier if a.tier in ("quick", "thorough") else "quick", "seed": seed, "level": prop.level,
        "coverage": {
            "obligations": obligations, "discharged": discharged,
            "checker_cmd": f"cd /verif && /opt/venv/bin/python -m kv.run --property {pid} --tier {a.tier}",
            "trusted_base": list(prop.trusted),
            "by_back_end": stat,
            "functions_under_contract": under,
            "paths": sum(getattr(v, "npaths", 0) for v in vcs),
            "vc_seconds": vc_time,
            "solver_seconds": round(smt.STATS["time"], 2), "solver_queries": smt.STATS["queries"],
            "witness_search": dict(hunt.STATS),
            "prover_seconds": round(prove.STATS["time"], 2),
            "identity_testing_error_bound": "per obligation < (degree/2^61)^rounds; degree < 2^20",
            "not_discharged": [r.as_dict() for r in records if r.status != "proved"][:60],
            "sampled_sign_assumptions": sorted(prove.STATS["sampled_signs"])[:60],
            "evaluations": n_eval, "distinct_nontrivial": len(distinct),
            "rule": getattr(prop, "rule", "concrete contracts evaluated on the real code for seeded random inputs; "
                                          "distinct inputs are counted"),
            "samples": samples or [r.as_dict() for r in records[:2]],
            "explanation": prop.explanation,
        },
        "assumptions": list(prop.assumptions),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(violations),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{pid}.json"), "w") as f:
        json.dump(jsonable(ev), f, indent=1)
    print(f"{pid}: obligations {obligations} discharged {discharged} {stat}; contracts evaluated {n_eval}; "
          f"violations {len(violations)}; {ev['wall_s']} s")
    if a.verbose:
        for r in records:
            if r.status != "proved" or a.vc:
                print("  ", r.vc, "|", r.name, "|", r.status, r.how, "|", r.note[:200], "|", r.path[:100])
        print("   hunts", hunt.STATS)
        print("   times", vc_time)
    return exit_code


if __name__ == "__main__":
    sys.exit(main())
