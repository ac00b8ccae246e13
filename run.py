#!/opt/venv/bin/python
"""Run one property check: ``run.py C01 [quick|thorough] [--replay FILE]``."""

from __future__ import annotations

import argparse
import importlib
import json
import os
import subprocess
import sys
import tempfile
import time
from collections import Counter

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
PY = "/opt/venv/bin/python"


def child_env(prop):
    env = dict(os.environ)
    repo = env.get("VERIF_REPO", "/repo")
    env["PYTHONPATH"] = os.path.join(repo, "src") + os.pathsep + HERE
    env["PYTHONDONTWRITEBYTECODE"] = "1"
    env["PYTHONHASHSEED"] = "0"
    for k in ("OMP_NUM_THREADS", "MKL_NUM_THREADS", "OPENBLAS_NUM_THREADS"):
        env[k] = "1"
    env["CUDA_VISIBLE_DEVICES"] = ""
    return env


def load(prop):
    return importlib.import_module("mon.props." + prop.lower())


def shard_main(args):
    import torch

    torch.set_num_threads(1)
    import ptwt

    from mon import core, hooks

    src = os.path.realpath(os.path.join(core.REPO, "src", "ptwt"))
    if os.path.realpath(os.path.dirname(ptwt.__file__)) != src:
        core.eprint("ptwt was not imported from", src, "but", ptwt.__file__)
        return 3
    mod = load(args.prop)
    if args.replay:
        with open(args.replay) as f:
            rec = json.load(f)
        ctx = core.Ctx(args.prop, args.tier, rec.get("seed", args.seed), 0, 1)
        if hasattr(mod, "setup"):
            mod.setup(ctx)
        ctx.run_case(mod.case, rec["spec"])
        out = ctx.dump()
        out.update(planned=1, done=1, wall_s=0.0)
    else:
        i, n = map(int, args.shard.split("/"))
        out = core.run_shard(
            mod, args.prop, args.tier, args.seed, i, n, args.cap
        )
    out["events"] = hooks.event_totals()
    with open(args.out, "w") as f:
        json.dump(out, f, default=str)
    return 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("tier", nargs="?", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--replay")
    ap.add_argument("--shard")
    ap.add_argument("--out")
    ap.add_argument("--cap", type=float)
    ap.add_argument("--jobs", type=int, default=0)
    args = ap.parse_args()
    if args.tier not in ("quick", "thorough"):
        print("tier must be quick or thorough", file=sys.stderr)
        return 2
    if args.shard or args.out:
        return shard_main(args)

    start = time.monotonic()
    # metadata is imported without torch where possible
    meta_src = load_meta(args.prop)
    cap = {"quick": 420.0, "thorough": 3600.0}[args.tier]
    if args.cap:
        cap = args.cap
    jobs = 1 if args.replay else (args.jobs or max(1, min(8, os.cpu_count() or 1)))
    jobs = min(jobs, meta_src.get("MAX_JOBS", 8))
    tmp = tempfile.mkdtemp(prefix="verif_" + args.prop + "_")
    procs = []
    results, errors = [], []
    try:
        for i in range(jobs):
            out = os.path.join(tmp, f"{i}.json")
            cmd = [PY, os.path.join(HERE, "run.py"), args.prop, args.tier,
                   "--seed", str(args.seed), "--shard", f"{i}/{jobs}",
                   "--out", out, "--cap", str(cap)]
            if args.replay:
                cmd += ["--replay", os.path.abspath(args.replay)]
            err = open(os.path.join(tmp, f"{i}.err"), "w")
            procs.append((subprocess.Popen(cmd, env=child_env(args.prop), stdout=err,
                                           stderr=err, cwd=tmp), out, err))
        for p, out, err in procs:
            left = cap + 120 - (time.monotonic() - start)
            try:
                rc = p.wait(timeout=max(5, left))
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()
                rc = "timeout"
            err.close()
            if rc == 0 and os.path.exists(out):
                with open(out) as f:
                    results.append(json.load(f))
            else:
                with open(err.name) as f:
                    errors.append(f"shard ended with {rc}: " + f.read()[-3000:])
    finally:
        for p, _, _ in procs:
            if p.poll() is None:
                p.kill()
        for name in os.listdir(tmp):
            os.unlink(os.path.join(tmp, name))
        os.rmdir(tmp)

    return report(args, meta_src, results, errors, time.monotonic() - start)


def load_meta(prop):
    """Read the constants of a property module without importing torch."""
    import ast

    path = os.path.join(HERE, "mon", "props", prop.lower() + ".py")
    with open(path) as f:
        tree = ast.parse(f.read())
    meta = {"DOC": ast.get_docstring(tree) or ""}
    for node in tree.body:
        if isinstance(node, ast.Assign) and isinstance(node.targets[0], ast.Name):
            try:
                meta[node.targets[0].id] = ast.literal_eval(node.value)
            except ValueError:
                pass
    return meta


def report(args, meta, results, errors, wall):
    counters, known, events = Counter(), Counter(), Counter()
    distinct, samples, violations = set(), [], []
    cases = planned = done = 0
    for r in results:
        counters.update(r["counters"])
        known.update(r["known"])
        events.update(r.get("events", {}))
        distinct.update(r["distinct"])
        samples.extend(r["samples"][:1])
        violations.extend(r["violations"])
        cases += r["cases"]
        planned += r["planned"]
        done += r["done"]
    judged = sum(v for k, v in counters.items() if k.startswith("judged:"))

    # one representative per mechanism
    by_mech: dict[str, dict] = {}
    for v in violations:
        by_mech.setdefault(v["mech"], v)
    rep_dir = os.path.join(HERE, "evidence", "replay")
    os.makedirs(rep_dir, exist_ok=True)
    for name in os.listdir(rep_dir):
        if name.startswith(args.prop + "-") and not args.replay:
            os.unlink(os.path.join(rep_dir, name))
    lines = []
    for n, (mech, v) in enumerate(sorted(by_mech.items())):
        path = args.replay or os.path.join(rep_dir, f"{args.prop}-{n}.json")
        if not args.replay:
            with open(path, "w") as f:
                json.dump({"property": args.prop, "seed": args.seed, "mech": mech,
                           "detail": v["detail"], "spec": v["spec"]}, f, indent=1,
                          default=str)
        lines.append((mech, v["detail"], path))

    if not args.replay:
        ev = {
            "property": args.prop,
            "tier": args.tier,
            "seed": args.seed,
            "level": "exploration",
            "coverage": {
                "evaluations": cases,
                "distinct_nontrivial": len(distinct),
                "rule": meta.get("RULE", ""),
                "samples": samples[:5] or [{"none": True}],
                "oracle_evaluations": judged,
                "judged_by_monitor": {k[7:]: v for k, v in sorted(counters.items())
                                      if k.startswith("judged:")},
                "observed_api_events": dict(sorted(events.items())),
                "other_counters": {k: v for k, v in sorted(counters.items())
                                   if not k.startswith("judged:")},
                "cases_planned": planned,
                "cases_done": done,
                "known_finding_hits": dict(known),
                "exhaustive": False,
            },
            "assumptions": meta.get("ASSUMPTIONS", []),
            "wall_s": round(wall, 2),
            "violations": len(by_mech),
        }
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        path = os.path.join(HERE, "evidence", args.prop + ".json")
        with open(path + ".tmp", "w") as f:
            json.dump(ev, f, indent=1, default=str)
        os.replace(path + ".tmp", path)

    for mech, n in sorted(known.items()):
        print(f"KNOWN-FINDING: property={args.prop} {mech} (seen {n} times)")
    if lines:
        for mech, detail, path in lines:
            print(f"VIOLATION property={args.prop} replay={path}")
            print(f"  {mech}: {detail[:600]}")
        return 1
    for e in errors:
        print("ERROR", e, file=sys.stderr)
    if errors:
        return 2
    need = meta.get("MIN_JUDGED", 1)
    if not args.replay:
        low = [k for k in meta.get("REQUIRED", []) if not counters.get("judged:" + k)]
        if judged < need or low:
            print(f"INCONCLUSIVE property={args.prop} judged={judged} missing={low}",
                  file=sys.stderr)
            return 2
    print(f"HELD property={args.prop} cases={cases} judged={judged} "
          f"distinct={len(distinct)} wall={wall:.1f}s")
    return 0


if __name__ == "__main__":
    sys.exit(main())
