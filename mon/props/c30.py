"""C30: work and memory grow in proportion to the data, matrices are built once per shape."""

import torch
from torch.utils import _pytree as pytree
from torch.utils._python_dispatch import TorchDispatchMode

from mon import gen, hooks, packetmodel, universe as U

COUNT = {"quick": 640, "thorough": 12000}
RULE = ("random program out of all transforms, inverses and packet trees, run on data and on data "
        "of which one axis (transformed or not) is four times as long while every tensor that "
        "torch produces is measured: neither the sum of their sizes, nor the largest one, nor the "
        "number of operations may grow more than in proportion; a matrix object called again "
        "with the same shape must not build its matrices again; looking at one packet node must "
        "not cost the whole tree; non-trivial = one pair of runs was compared; distinct by "
        "program and axis")
ASSUMPTIONS = ["the two-dimensional matrices of the non-separable transform are dense along their "
               "borders, for them only the growth along other axes is judged",
               "sizes of storages stand for memory; buffers inside of one operation of torch are "
               "not seen"]
REQUIRED = ["long-axis", "batch-axis", "reuse", "lazy"]
MIN_JUDGED = 500
# four times the data, and some room for constants that grow with it
LIMIT = 4 * 1.3
BASE = {1: 192, 2: 48, 3: 20}


def setup(ctx):
    hooks.install(ctx, {})


class Meter(TorchDispatchMode):
    """Measures what every operation of torch returns."""

    def __init__(self):
        super().__init__()
        self.ops = self.total = self.peak = 0
        self.what = ""

    def __torch_dispatch__(self, func, types, args=(), kwargs=None):
        out = func(*args, **(kwargs or {}))
        self.ops += 1
        for t in pytree.tree_leaves(out):
            if isinstance(t, torch.Tensor):
                n = size_of(t)
                self.total += n
                if n > self.peak:
                    self.peak, self.what = n, f"{func} -> {tuple(t.shape)}"
        return out


def size_of(t):
    if t.layout == torch.strided:
        return t.untyped_storage().nbytes() // t.element_size()
    if t.layout == torch.sparse_coo:
        return t._nnz() * 3
    return t.values().numel() * 3


def measure(fn, *args):
    meter = Meter()
    with meter:
        out = fn(*args)
    return meter, out


def generate(rng, idx, tier):
    u = U.ALL[idx % len(U.ALL)]
    spec = U.generate(rng, idx, u, dtypes=("f64", "f32"), batch=rng.choice([1, 1, 2]))
    if spec is None:
        return None
    nd = U.ND[u]
    axes = transformed(spec, nd)
    others = [k for k in range(len(spec["shape"])) if k not in axes]
    sep = not (spec.get("cls") == "m2n" or (spec.get("mode") == "boundary" and nd == 2
                                            and not spec["sep"]))
    if spec.get("mode") == "boundary" and not sep and gen.flen(spec["wav"]) > 4:
        return None
    if sep and (not others or rng.random() < 0.75):
        grow, base = rng.choice(axes), BASE[nd] + 16 * rng.randrange(4)
    elif others:
        grow, base = rng.choice(others), rng.choice([2, 3, 5])
    else:
        return None
    spec["shape"] = list(spec["shape"])
    spec["shape"][grow] = base
    spec["grow"], spec["along"] = grow, "long-axis" if grow in axes else "batch-axis"
    if "maxlevel" in spec:
        spec["maxlevel"] = min(packetmodel.level_of(spec), 3 if nd == 1 else 2) or 1
        if not packetmodel.feasible(spec):
            return None
    elif u != "cwt":
        spec["level"] = min(spec.get("level") or 1, 3)
    return spec


def transformed(spec, nd):
    total = len(spec["shape"])
    return [a % total for a in (spec.get("axes") or range(-nd, 0))]


def case(ctx, spec):
    long = dict(spec, shape=[n * 4 if k == spec["grow"] else n
                             for k, n in enumerate(spec["shape"])])
    name = U.name_of(spec)
    axis = f"axis {spec['grow']}"
    runs = []
    for s in (spec, long):
        tree = U.build_input(s)
        run = U.make(s)
        first, _ = measure(run, tree)
        runs.append((first, run, tree))
    (a, run, tree), (b, _, _) = runs
    for what in ("total", "peak", "ops"):
        x, y = getattr(a, what), getattr(b, what)
        # small numbers are dominated by constants
        if y > LIMIT * max(x, 64):
            unit = "operations" if what == "ops" else "elements"
            detail = f" ({b.what} after {a.what})" if what == "peak" else ""
            ctx.fail("growth", f"{name}: {axis} four times as long takes {y} instead of {x} "
                               f"{unit} ({what}){detail}")
    ctx.judged(spec["along"])
    ctx.count("elements", a.total + b.total)
    ctx.sig(name + axis)
    if spec["u"] in U.OBJECTS:
        again, _ = measure(run, tree)
        third, _ = measure(run, tree)
        if again.ops >= a.ops or again.total >= a.total:
            ctx.fail("reuse", f"{name}: the second call takes {again.ops} operations and "
                              f"{again.total} elements, the first one {a.ops} and {a.total}: the "
                              "matrices are built again")
        if third.ops > again.ops or third.total > again.total:
            ctx.fail("reuse", f"{name}: the third call takes {third.ops} operations and "
                              f"{third.total} elements, the second one {again.ops} and "
                              f"{again.total}")
        ctx.judged("reuse")
    if spec["u"] in ("wp1", "wp2") and spec["maxlevel"] > 1:
        # one leaf after the other: no access may repeat what an earlier one did
        node = packetmodel.make(dict(spec), tree)
        letters = packetmodel.LETTERS[spec["nd"]]
        path = "".join(letters[(spec["ds"] >> k) % len(letters)] for k in range(spec["maxlevel"]))
        one, _ = measure(lambda: node[path])
        two, _ = measure(lambda: node[path])
        # most of a boundary tree is building its matrices, which all nodes share
        if one.total >= 0.9 * a.total and spec["mode"] != "boundary":
            ctx.fail("lazy", f"{name}: one node takes {one.total} elements, the whole tree "
                             f"{a.total}")
        if two.ops > 0:
            ctx.fail("lazy", f"{name}: a node that is known takes {two.ops} operations")
        ctx.judged("lazy")
