"""C29: results, node orders and rejections do not depend on interpreter and process."""

import json
import os
import random
import shutil
import subprocess
import sys
import tempfile

import torch

from mon import core, envchild, envjobs, gen, hooks, universe as U

COUNT = {"quick": 64, "thorough": 900}
RULE = ("a batch of random programs (all transforms, inverses and objects, packet trees with their "
        "node order, node orders of the classes, sparse helpers, malformed calls) is run in this "
        "process and in a new interpreter started with other settings (hash seeds, -O, -OO, -X "
        "dev, warnings as errors, thread counts, import orders, a collector that runs at every "
        "allocation, a profile function, forked, in a thread, in another directory); results, "
        "mapping orders and raised exceptions must be the same, nothing is printed to stdout, and "
        "importing the package leaves process-wide settings alone; non-trivial = one program was "
        "compared across interpreters; distinct by setting and programs")
ASSUMPTIONS = ["results are compared to 1e-11 (1e-4 for float32), not bitwise: another number of "
               "threads may round differently"]
MODULES = ["ptwt.packets", "ptwt.sparse_math", "ptwt.continuous_transform",
           "ptwt.wavelets_learnable", "ptwt.matmul_transform_3", "ptwt.matmul_transform_2",
           "ptwt.conv_transform_2", "ptwt.separable_conv_transform", "ptwt.stationary_transform",
           "ptwt.constants", "ptwt.conv_transform_3", "ptwt.matmul_transform",
           "ptwt.conv_transform", "ptwt.version"]
CONFIGS = ["hash", "optimize", "hash", "optimize2", "warnings", "threads", "imports", "gc",
           "hash", "profile", "fork", "thread", "dev", "locale", "directory", "optimize"]
REQUIRED = ["program", "tree", "orders", "sparse", "rejection", "stdout", "import"] + [
    "setting-" + c for c in sorted(set(CONFIGS))]
MIN_JUDGED = 1500
PROGRAMS = 32


def setup(ctx):
    hooks.install(ctx, {})


def generate(rng, idx, tier):
    return {"config": CONFIGS[idx % len(CONFIGS)], "seed": rng.randrange(2**31), "first": idx,
            "hash": rng.randrange(1, 2**32), "threads": rng.choice([2, 3, 8]),
            "imports": rng.sample(MODULES, rng.choice([1, 2, len(MODULES)]))}


def jobs_for(spec):
    rng = random.Random(spec["seed"])
    jobs = []
    for k in range(PROGRAMS):
        u = U.ALL[(spec["first"] * 7 + k) % len(U.ALL)]
        s = U.generate(rng, k, u, dtypes=("f64", "f64", "f32"))
        if s is None:
            continue
        if s.get("wform") == "plain":
            s["wform"] = "custom"
        # only the programs run elsewhere, the inputs are made here
        jobs.append({"what": "call", "spec": s,
                     "input": U.tmap(lambda t: t.detach().clone(), U.build_input(s))})
    for k in range(3):
        s = U.generate(rng, k, ["wp1", "wp2"][k % 2], dtypes=("f64",))
        if s is not None:
            jobs.append({"what": "tree", "spec": s, "seed": rng.randrange(2**31),
                         "input": gen.tensor(s).detach().clone()})
    jobs.append({"what": "orders"})
    jobs.append({"what": "sparse", "n": rng.randrange(8, 20),
                 "mode": rng.choice(["full", "same", "sameshift", "valid"]),
                 "filter": torch.randn(rng.choice([2, 4, 6]), dtype=torch.float64,
                                       generator=torch.Generator().manual_seed(spec["seed"]))})
    g = torch.Generator().manual_seed(spec["seed"] + 1)
    for kind in envjobs.REJECTS:
        jobs.append({"what": "reject", "kind": kind, "wav": rng.choice(["haar", "db2"]),
                     "dim": rng.choice([-1, -2]), "grow": rng.random() < 0.5,
                     "input": torch.randn(2, 16, 16, dtype=torch.float64, generator=g)})
    return jobs


def command(spec, tmp):
    """Interpreter flags, environment and options of the child."""
    env = dict(os.environ)
    env.update(PYTHONHASHSEED="0", OMP_NUM_THREADS="1", MKL_NUM_THREADS="1",
               PYTHONDONTWRITEBYTECODE="1")
    flags, opts = [], {}
    c = spec["config"]
    if c == "hash":
        env["PYTHONHASHSEED"] = str(spec["hash"])
    elif c == "optimize":
        flags = ["-O"]
    elif c == "optimize2":
        flags = ["-OO"]
    elif c == "dev":
        # development mode makes torch import noisy, but nothing else may change
        flags = ["-X", "dev"]
    elif c == "warnings":
        for w in ("DeprecationWarning", "FutureWarning", "PendingDeprecationWarning",
                  "SyntaxWarning", "EncodingWarning"):
            flags += ["-W", f"error::{w}:ptwt"]
    elif c == "threads":
        env["OMP_NUM_THREADS"] = env["MKL_NUM_THREADS"] = str(spec["threads"])
    elif c == "imports":
        opts["imports"] = spec["imports"]
    elif c in ("gc", "profile", "fork", "thread"):
        opts[c] = True
    elif c == "locale":
        env.update(LC_ALL="C", LANG="C", PYTHONUTF8="0", TZ="Pacific/Apia")
    elif c == "directory":
        opts["chdir"] = os.path.join(tmp, "leer zeichen")
        os.mkdir(opts["chdir"])
    return flags, env, opts


def case(ctx, spec):
    jobs = jobs_for(spec)
    want = envchild.compute(jobs)
    tmp = tempfile.mkdtemp(prefix="verif_env_")
    try:
        flags, env, opts = command(spec, tmp)
        src, dst = os.path.join(tmp, "in.pt"), os.path.join(tmp, "out.pt")
        torch.save(jobs, src)
        try:
            p = subprocess.run([sys.executable, *flags, "-m", "mon.envchild", src, dst,
                                json.dumps(opts)], env=env, cwd=tmp, capture_output=True,
                               timeout=300)
        except subprocess.TimeoutExpired as e:
            raise core.Inconclusive("child interpreter timed out") from e
        if p.returncode < 0:
            raise core.Inconclusive(f"child interpreter was ended by signal {-p.returncode}")
        if p.returncode or not os.path.exists(dst):
            ctx.fail("interpreter", f"setting {spec['config']} {flags} {opts}: the programs end with "
                                    f"{p.returncode}: {p.stderr.decode(errors='replace')[-700:]}")
        got = torch.load(dst, weights_only=False)
    finally:
        shutil.rmtree(tmp)
    label = f"setting {spec['config']} {flags or ''} {opts or ''}"
    if spec["config"] == "hash":
        label += f" PYTHONHASHSEED={spec['hash']}"
    if p.stdout:
        ctx.fail("stdout", f"{label}: printed {p.stdout[:200]!r}")
    ctx.judged("stdout")
    if got["changed"]:
        ctx.fail("import", f"{label}: importing the package changed {got['changed']}")
    ctx.judged("import")
    for job, a, b in zip(jobs, got["results"], want):
        what = job["what"]
        name = U.name_of(job["spec"]) if "spec" in job else f"{what} {job.get('kind', '')}"
        name = f"{label}: {what} {name}"
        key = {"call": "program", "reject": "rejection"}.get(what, what)
        if a[0] != b[0] or (a[0] == "error" and a[1] != b[1]):
            ctx.fail(key, f"{name}: {describe(a)} there, {describe(b)} here")
        if a[0] == "ok":
            U.compare(ctx, U.tmap(plain, a[1]), U.tmap(plain, b[1]), name, key)
        elif what != "reject":
            raise core.Inconclusive(f"program raised {a[1]}")
        ctx.judged(key)
    ctx.judged("setting-" + spec["config"])
    ctx.sig(label + str(spec["seed"]))


def plain(t):
    return t.detach().to(torch.float64) if not t.dtype.is_floating_point and not t.is_complex() \
        else t.detach()


def describe(r):
    return f"raised {r[1]}" if r[0] == "error" else "a result"
