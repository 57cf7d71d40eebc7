"""run one property: python engine.py --property C01 --tier quick | --replay FILE"""
import argparse
import os
import sys
import time

T0 = time.time()
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import boot  # noqa: E402
import collections  # noqa: E402
import json  # noqa: E402
import multiprocessing as mp  # noqa: E402
import shutil  # noqa: E402
import traceback  # noqa: E402

import core  # noqa: E402
from core import Info, Violation, case_key  # noqa: E402

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)


def registry():
    import importlib

    out = {}
    for name in sorted(os.listdir(HERE)):
        if name.startswith("props_") and name.endswith(".py"):
            for p in importlib.import_module(name[:-3]).PROPS:
                out[p.id] = p
    return out


def judge(prop, case, info):
    """run one case; results of dany that the checks cannot even read (missing fields,
    another type) are violations, errors while the case is built are errors of the harness"""
    try:
        prop.run(case, info)
    except (AttributeError, IndexError, KeyError, TypeError, ValueError) as e:
        tb = traceback.extract_tb(e.__traceback__)
        if any(os.path.basename(f.filename) in ("gen.py", "mesh.py", "oracles.py") for f in tb):
            raise
        at = [f for f in tb if os.path.dirname(f.filename) == HERE][-1]
        raise Violation(f"results could not be read: {type(e).__name__}: {str(e)[:150]} ({os.path.basename(at.filename)}:{at.name}:{at.lineno})") from None


def _shard(args):
    """one worker: a fixed number of examples from a fixed seed"""
    pid, tier, seed, shard, nshard, nex = args
    try:
        return _shard_run(pid, tier, seed, shard, nshard, nex)
    except BaseException:  # noqa: BLE001
        return {"error": traceback.format_exc()}


def _shard_run(pid, tier, seed, shard, nshard, nex):
    import hypothesis
    import hypothesis.internal.conjecture.engine as eng
    from hypothesis import HealthCheck, Phase, given, settings

    eng.MAX_SHRINKING_SECONDS = 40
    core.install_step_counter()
    prop = registry()[pid]
    tot = collections.Counter()
    keys, samples, known = set(), [], {}
    state = {"case": None, "msg": None, "n": 0}

    limit = T0 + (520 if tier == "quick" else 3600)

    def one(case):
        if time.time() > limit and state["case"] is None:
            return  # a very slow tree: report on what was explored
        state["n"] += 1
        info = Info()
        try:
            judge(prop, case, info)
        except Violation as e:
            state["case"], state["msg"] = case, str(e)
            raise
        tot.update(info.labels)
        for k in info.known:
            known.setdefault(k, case)
        if info.nontrivial:
            k = case_key(case)
            if k not in keys:
                keys.add(k)
                s = json.dumps(case)
                if len(samples) < 3 and len(s) < 1500:
                    samples.append(case)

    # fixed extra cases (large/degenerate shapes) are spread over the shards
    extra = list(prop.extra(tier)) if hasattr(prop, "extra") else []
    for i, case in enumerate(extra):
        if i % nshard == shard:
            try:
                one(case)
            except Violation:
                return _res(state, tot, keys, samples, known)

    @hypothesis.seed(seed * 1000003 + shard)
    @settings(
        max_examples=nex, database=None, deadline=None, print_blob=False,
        report_multiple_bugs=False, suppress_health_check=list(HealthCheck),
        phases=[Phase.generate, Phase.shrink],
    )
    @given(prop.strategy(tier))
    def test(case):
        one(case)

    state["case"] = None
    try:
        test()
    except Violation:
        pass
    except BaseException as e:  # noqa: BLE001
        if state["case"] is None or "Flaky" not in type(e).__name__:
            raise
        # a violation that did not repeat inside this process is judged by the replay
    return _res(state, tot, keys, samples, known)


def _res(state, tot, keys, samples, known):
    return {
        "n": state["n"], "labels": dict(tot), "keys": sorted(keys), "samples": samples,
        "known": known, "fail": None if state["case"] is None else [state["case"], state["msg"]],
    }


def _known_listed(pid):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return {}
    with open(p) as f:
        d = json.load(f)
    return {k["id"]: k for k in d["findings"] if k["property"] == pid}


def replay(pid, path):
    with open(path) as f:
        d = json.load(f)
    pid = pid or d["property"]
    core.install_step_counter()
    prop = registry()[pid]
    try:
        judge(prop, d["case"], Info())
    except Violation as e:
        print(f"{pid}: {e}")
        print(f"VIOLATION property={pid} replay={path}")
        return 1
    print(f"{pid}: replay {path} holds")
    return 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--property")
    ap.add_argument("--tier", default="quick", choices=["quick", "thorough"])
    ap.add_argument("--replay")
    ap.add_argument("--examples", type=int)
    ap.add_argument("--jobs", type=int, default=8)
    a = ap.parse_args()
    if a.replay:
        return replay(a.property, a.replay)
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    pid = a.property
    prop = registry()[pid]
    nsh = 8
    per = a.examples or getattr(prop, "n_" + a.tier, 2000 if a.tier == "quick" else 8000)
    jobs = [(pid, a.tier, seed, s, nsh, per) for s in range(nsh)]
    ctx = mp.get_context("fork")
    with ctx.Pool(min(a.jobs, nsh), maxtasksperchild=1) as pool:
        res = pool.map(_shard, jobs, chunksize=1)
    errs = [r["error"] for r in res if "error" in r]
    if errs:
        print(errs[0], file=sys.stderr)
        print(f"harness error in {pid}", file=sys.stderr)
        return 2
    labels = collections.Counter()
    keys, samples, known = set(), [], {}
    for r in res:
        labels.update(r["labels"])
        keys.update(r["keys"])
        samples += r["samples"][:1]
        for k, v in r["known"].items():
            known.setdefault(k, v)
    fails = [r["fail"] for r in res if r["fail"]]
    listed = _known_listed(pid)
    unlisted = [k for k in known if k not in listed]
    rc = 0
    if not fails and unlisted:
        fails = [[known[unlisted[0]], f"finding {unlisted[0]} is not a listed known finding"]]
    if fails:
        fails.sort(key=lambda f: len(json.dumps(f[0])))
        case, msg = fails[0]
        out = os.path.join(VERIF, "evidence", "replays", f"{pid}-{case_key(case)}.json")
        core.dump(case, out, property=pid, message=msg)
        print(f"{pid}: {msg}")
        print(f"VIOLATION property={pid} replay={out}")
        rc = 1
    for k in sorted(listed):
        if k in known:
            print(f"KNOWN-FINDING: property={pid} {listed[k]['what']}")
    n = sum(r["n"] for r in res)
    ev = {
        "property": pid, "tier": a.tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": n, "distinct_nontrivial": len(keys),
            "rule": prop.rule, "samples": samples[:4],
            "classes": dict(sorted(labels.items())),
            "shards": nsh, "examples_per_shard": per,
        },
        "assumptions": list(getattr(prop, "assumptions", [])),
        "wall_s": round(time.time() - T0, 2), "violations": 1 if rc else 0,
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{pid}.json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    print(f"{pid} {a.tier}: {n} cases, {len(keys)} distinct non-trivial, {ev['wall_s']} s")
    return rc


if __name__ == "__main__":
    try:
        code = main()
    except SystemExit:
        raise
    except BaseException:  # noqa: BLE001
        traceback.print_exc()
        code = 2
    finally:
        if boot.OWN_SCRATCH:
            shutil.rmtree(boot.SCRATCH, ignore_errors=True)
    sys.exit(code)
