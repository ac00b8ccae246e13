"""C16: axes and batch dimensions only select; batch elements never mix."""

import torch

from mon import gen, hooks, universe as U

COUNT = {"quick": 3000, "thorough": 60000}
RULE = ("random program out of all 23 transforms and inverses with random axes (any order, either "
        "sign) and batch dimensions: the result must be the moved-axis result of the default-axes "
        "call, the stack of the per-element results, the result on folded and on permuted batch "
        "dimensions, the empty containers on an empty batch, and must not change in other batch elements if one element is filled with "
        "NaN or infinity; non-trivial = one relation was judged; distinct by program description")
ASSUMPTIONS = ["kernels may add in another order for other batch sizes: 1e-11 relative tolerance"]
REQUIRED = ["axes", "sample", "isolation", "fold", "permute", "empty"]
MIN_JUDGED = 1000


def setup(ctx):
    hooks.install(ctx, {})


def generate(rng, idx, tier):
    u = U.ALL[idx % len(U.ALL)]
    if u == "im2n" and rng.random() < 0.7:
        u = rng.choice(U.CONV)
    spec = U.generate(rng, idx, u, dtypes=("f64",), batch=rng.choice([1, 1, 2, 3]))
    if spec is not None:
        if rng.random() < 0.03:
            # one batch dimension beyond 2^10, 2^15 or 2^16
            axes, total = norm_axes(spec)
            front = [a for a in range(total) if a not in axes]
            k, n = rng.choice(front), rng.choice([1025, 4099, 33000, 66001])
            rest = 1
            for i, m in enumerate(spec["shape"]):
                rest *= m if i != k else 1
            spec["shape"][k] = min(n, max(spec["shape"][k], 250000 // rest))
        spec["poison"] = rng.choice(["nan", "inf", "huge"])
    return spec


def norm_axes(spec):
    nd = U.ND[spec["u"]]
    total = len(spec["shape"])
    axes = spec.get("axes") or list(range(-nd, 0))
    return [a % total for a in axes], total


def case(ctx, spec):
    nd = U.ND[spec["u"]]
    axes, total = norm_axes(spec)
    front = [a for a in range(total) if a not in axes]
    perm = front + axes
    name = U.name_of(spec)
    run = U.make(spec)
    tree = U.build_input(spec)
    out = run(tree)
    lead = 1 if spec["u"] == "cwt" else 0
    inv = sorted(range(total), key=perm.__getitem__)

    def std(t, off=0):
        """Transformed axes last, in the order of ``axes``."""
        if off:
            return t.permute([0] + [p + 1 for p in perm])
        return t.permute(perm)

    # the call on default axes
    dspec = dict(spec, axes=None, shape=[spec["shape"][p] for p in perm])
    drun = U.make(dspec)
    dtree = U.tmap(lambda t: std(t).contiguous(), tree)
    dout = drun(dtree)
    nout = U.tmap(lambda t: std(t, lead), out)
    if spec.get("axes"):
        U.compare(ctx, nout, dout, name + " against default axes", "axes")
        ctx.judged("axes")
    nb = len(front)
    bshape = dspec["shape"][:nb]
    sizes = dspec["shape"][nb:]
    g = torch.Generator().manual_seed(spec["ds"] % 2**31)
    # one element alone, without batch dimension
    pick = [int(torch.randint(0, b, (1,), generator=g)) for b in bshape]
    sel = tuple(pick)

    def select(t, off=0):
        return t[(slice(None),) * off + sel]

    sspec = dict(dspec, shape=sizes)
    sout = U.make(sspec)(U.tmap(lambda t: select(t).clone(), dtree))
    U.compare(ctx, U.tmap(lambda t: select(t, lead), dout), sout,
              f"{name} element {sel}", "sample")
    ctx.judged("sample")
    # folded batch
    flat = 1
    for b in bshape:
        flat *= b
    fspec = dict(dspec, shape=[flat, *sizes])
    fout = U.make(fspec)(U.tmap(lambda t: t.reshape(flat, *t.shape[nb:]), dtree))
    U.compare(ctx, U.tmap(lambda t: t.reshape(*t.shape[:lead], flat, *t.shape[lead + nb:]), dout),
              fout, name + " folded batch", "fold")
    ctx.judged("fold")
    # permuted batch elements
    order = torch.randperm(flat, generator=g)
    pout = U.make(fspec)(U.tmap(lambda t: t.reshape(flat, *t.shape[nb:])[order], dtree))
    U.compare(ctx, pout, U.tmap(lambda t: t.index_select(lead, order), fout),
              name + " permuted batch", "permute")
    ctx.judged("permute")
    # a batch without any element: the same containers with an empty dimension
    if bshape:
        k = int(torch.randint(0, nb, (1,), generator=g))
        espec = dict(dspec, shape=[0 if i == k else s for i, s in enumerate(dspec["shape"])],
                     layout="contig")
        eout = U.make(espec)(U.tmap(lambda t: t.narrow(k, 0, 0).clone(), dtree))
        U.compare(ctx, eout, U.tmap(lambda t: t.narrow(k + lead, 0, 0), dout),
                  f"{name} with empty batch dimension {k}", "empty")
        ctx.judged("empty")
    # poison one element
    if flat > 1:
        bad = int(order[0])
        val = {"nan": float("nan"), "inf": float("inf"), "huge": 1e300}[spec["poison"]]
        ptree = U.tmap(lambda t: t.reshape(flat, *t.shape[nb:]).clone(), dtree)
        for t in U.leaves(ptree):
            t[bad] = val
        q = U.make(fspec)(ptree)
        keep = torch.tensor([i for i in range(flat) if i != bad])
        U.compare(ctx, U.tmap(lambda t: t.index_select(lead, keep), q),
                  U.tmap(lambda t: t.index_select(lead, keep), fout),
                  f"{name}: other elements after {spec['poison']} in element {bad}", "isolation")
        ctx.judged("isolation")
    del inv
    ctx.sig(name)
