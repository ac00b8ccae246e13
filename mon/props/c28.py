"""C28: copies and pickles of objects answer like the original and live on their own."""

import copy
import io
import pickle
import random
from itertools import product

import numpy as np
import pywt
import torch
from torch.utils import _pytree

import ptwt
from ptwt import continuous_transform as ct, wavelets_learnable as wl

from mon import gen, hooks, packetmodel, universe as U

COUNT = {"quick": 900, "thorough": 14000}
RULE = ("random matrix transform objects and packet trees, new, used, or used for another shape, "
        "are copied by copy.copy, copy.deepcopy, pickle (every protocol), torch.save and "
        "UserDict.copy, learnable wavelets also by state_dict; the copy answers like the original, "
        "later calls, node edits, transforms and reconstructions of one of them do not show in the "
        "other, the set of computed nodes, level and settings are kept, filter tuples and coefficient containers survive with their "
        "types; non-trivial = one copy was compared; distinct by program and way of copying")
ASSUMPTIONS = ["a shallow copy shares node tensors with the original, so they are not edited in "
               "place"]
REQUIRED = ["object", "packet", "container", "independent", "module"]
MIN_JUDGED = 2500
GROUPS = ["objects", "packets", "objects", "packets", "containers", "modules"]


def setup(ctx):
    hooks.install(ctx, {})


def saved(obj):
    buf = io.BytesIO()
    torch.save(obj, buf)
    buf.seek(0)
    return torch.load(buf, weights_only=False)


WAYS = {"copy": copy.copy, "deepcopy": copy.deepcopy, "torch.save": saved,
        "dict.copy": lambda o: o.copy()}
for _p in range(2, pickle.HIGHEST_PROTOCOL + 1):
    WAYS[f"pickle{_p}"] = lambda o, p=_p: pickle.loads(pickle.dumps(o, protocol=p))
DEEP = [w for w in WAYS if w not in ("copy", "dict.copy")]


def generate(rng, idx, tier):
    group = GROUPS[idx % len(GROUPS)]
    if group == "modules":
        return {"group": group, "u": "module", "cls": rng.choice(list(MODULES)),
                "wav": gen.pick_wavelet(rng, maxlen=20), "way": rng.choice(DEEP + ["state_dict"]),
                "ds": rng.randrange(2**31), "dtype": rng.choice(["f64", "f64", "f32"]),
                "nested": rng.random() < 0.3}
    pool = {"objects": U.OBJECTS, "packets": ["wp1", "wp2"],
            "containers": U.FORWARD}[group]
    u = pool[(idx // len(GROUPS)) % len(pool)]
    spec = U.generate(rng, idx, u, dtypes=("f64", "f64", "f32"))
    if spec is None:
        return None
    ways = [w for w in WAYS if group == "packets" or w != "dict.copy"]
    spec.update(group=group, state=rng.choice(["new", "used", "other", "used"]),
                way=ways[(idx // 2 + rng.randrange(3)) % len(ways)], hist=rng.randrange(2**31))
    if spec.get("wform") == "plain":
        # a class of this harness
        spec["wform"] = "tuple"
    if group == "objects":
        axes = spec.get("axes") or list(range(-U.ND[u], 0))
        shape = list(spec["shape"])
        for a in axes:
            shape[a] += rng.choice([1, 2, 3])
        spec["shape2"] = shape
    return spec


def case(ctx, spec):
    {"objects": objects, "packets": packets, "containers": containers,
     "modules": modules}[spec["group"]](ctx, spec)
    if spec["group"] == "modules":
        ctx.sig("|".join(str(spec[k]) for k in ("cls", "wav", "way", "dtype", "nested")))
        return
    ctx.sig(U.name_of(spec) + spec["way"] + spec["state"] + str(spec["hist"] % 7))


def objects(ctx, spec):
    name = f"{spec['way']} of a {spec['state']} {U.name_of(spec)} object"
    other_spec = dict(spec, shape=spec["shape2"], ds=spec["ds"] + 1)
    tree, other = U.build_input(spec), U.build_input(other_spec)
    ref, oref = U.make(spec)(tree), U.make(other_spec)(other)
    obj = U.make(spec)
    if spec["state"] == "used":
        obj(tree)
    elif spec["state"] == "other":
        obj(other)
    new = WAYS[spec["way"]](obj)
    if type(new) is not type(obj):
        ctx.fail("object", f"{name} is a {type(new).__name__}")
    # one of them is used first, with the other shape
    rng = random.Random(spec["hist"])
    steps = [(new, "copy"), (obj, "original")]
    if rng.random() < 0.5:
        steps.reverse()
    for k in range(rng.choice([1, 2])):
        for who, label in steps:
            pair = ((other, oref), (tree, ref))
            for t, r in pair if rng.random() < 0.6 else pair[1:]:
                U.compare(ctx, who(t), r, f"{name}: answer of the {label} in round {k}", "object")
                ctx.judged("object")
    if spec["way"] in DEEP:
        # nothing of the copy is the original's: edit every tensor the copy holds
        held = [v for v in vars(new).values()]
        with torch.no_grad():
            for t in tensors(held):
                if t.layout == torch.strided:
                    t.fill_(3.0)
                elif t.layout == torch.sparse_coo:
                    t._values().fill_(3.0)
        U.compare(ctx, obj(tree), ref, f"{name}: original after the copy's tensors were edited",
                  "object")
        ctx.judged("independent")


def tensors(tree):
    if isinstance(tree, torch.Tensor):
        yield tree
    elif isinstance(tree, dict):
        for v in tree.values():
            yield from tensors(v)
    elif isinstance(tree, (list, tuple)):
        for v in tree:
            yield from tensors(v)


def pytree(out):
    """The leaves of a coefficient container, whatever tuple types it is made of."""
    return _pytree.tree_leaves(out)


def packets(ctx, spec):
    lev = packetmodel.level_of(spec)
    name = f"{spec['way']} of a {spec['state']} {packetmodel.name_of(spec)}"
    letters = packetmodel.LETTERS[spec["nd"]]
    rng = random.Random(spec["hist"])
    x = gen.tensor(spec)
    y = gen.tensor(dict(spec, ds=spec["ds"] + 1))
    exact = dict(exact=True)
    fresh = packetmodel.make(dict(spec), x)
    paths = ["".join(p) for n in range(lev + 1) for p in product(letters, repeat=n)]
    want = {p: fresh[p].clone() for p in paths}
    # the root node is the tensor of the caller
    tree = packetmodel.make(dict(spec), y if spec["state"] == "other" else x.clone())
    if spec["state"] != "new":
        for p in rng.sample(paths, min(len(paths), 3)):
            tree[p]
    if spec["state"] == "other":
        tree.transform(x.clone(), spec["maxlevel"])
        tree[rng.choice(paths)]
    computed = {p: t.clone() for p, t in tree.data.items()}
    new = WAYS[spec["way"]](tree)
    if type(new) is not type(tree) or sorted(new.data) != sorted(computed):
        ctx.fail("packet", f"{name}: nodes {sorted(new.data)} instead of {sorted(computed)}")
    if new.maxlevel != tree.maxlevel or list(new) != list(tree) or len(new) != len(tree):
        ctx.fail("packet", f"{name}: level or node order differ")
    for p, t in computed.items():
        U.compare(ctx, (new[p],), (t,), f"{name}: node '{p}'", "packet", **exact)
    # the copy is changed, the original must not notice
    order = [(new, tree), (tree, new)]
    a, b = order[rng.randrange(2)]
    what = "copy" if a is new else "original"
    leaves = ["".join(p) for p in product(letters, repeat=lev)]
    op = rng.choice(["set", "transform", "reconstruct", "expand", "del"])
    if lev < 1 and op in ("reconstruct", "set", "expand"):
        op = "transform"
    if op == "set":
        a[rng.choice(paths[1:])] = torch.full_like(x, 5.0)
    elif op == "transform":
        a.transform(y, spec["maxlevel"])
        for p in paths[:4]:
            a[p]
    elif op == "reconstruct":
        for p in leaves:
            a[p] = torch.zeros_like(a[p])
        a.reconstruct()
    elif op == "expand":
        for p in leaves:
            a[p]
    else:
        for p in list(a.data):
            del a[p]
    if sorted(b.data) != sorted(computed):
        ctx.fail("independent", f"{name}: {op} on the {what} changed the nodes of the other one: "
                                f"{sorted(b.data)} instead of {sorted(computed)}")
    ctx.judged("independent")
    for p in rng.sample(paths, min(len(paths), 6)):
        U.compare(ctx, (b[p],), (want[p],), f"{name}: node '{p}' after {op} on the {what}",
                  "independent")
        ctx.judged("packet")
    if spec["way"] in DEEP and op in ("expand",):
        with torch.no_grad():
            for t in a.data.values():
                t.fill_(7.0)
        for p in paths[:6]:
            U.compare(ctx, (b[p],), (want[p],), f"{name}: node '{p}' after the nodes of the "
                                                f"{what} were overwritten", "independent")
    # both still work as trees
    for who in (a, b):
        who.transform(x, spec["maxlevel"])
        p = rng.choice(paths)
        U.compare(ctx, (who[p],), (want[p],), f"{name}: node '{p}' after a transform", "packet")
        ctx.judged("packet")


def containers(ctx, spec):
    """Results and filter tuples survive with their types, and the copy can be inverted."""
    name = f"{spec['way']} of the result of {U.name_of(spec)}"
    out = U.make(spec)(gen.tensor(spec))
    new = WAYS[spec["way"]](out)
    U.compare(ctx, new, out, name, "container", exact=True)

    def types(t):
        if isinstance(t, dict):
            return {k: types(v) for k, v in t.items()}
        if isinstance(t, (list, tuple)):
            return (type(t), [types(v) for v in t])
        return type(t)

    if types(new) != types(out):
        ctx.fail("container", f"{name}: the container types differ")
    ctx.judged("container")
    if spec["u"] == "cwt":
        return
    w = ptwt.WaveletTensorTuple.from_wavelet(
        gen.oracle_wavelet(gen.wavelet(dict(spec, wform="str"))), gen.DTYPES[spec["dtype"]])
    w2 = WAYS[spec["way"]](w)
    if type(w2) is not ptwt.WaveletTensorTuple or w2.dec_len != w.dec_len or not all(
            torch.equal(a, b) for a, b in zip(w, w2)):
        ctx.fail("container", f"{spec['way']} of the filters of {spec['wav']}")
    ctx.judged("container")
    if spec["way"] not in DEEP:
        return
    # deep copies own their tensors: edit those of the copy, the original stays
    kept = [t.clone() for t in w], [t.clone() for t in tensors(pytree(out))]
    with torch.no_grad():
        for t in [*w2, *tensors(pytree(new))]:
            t.fill_(3.0)
    if not all(torch.equal(a, b) for a, b in zip(w, kept[0])):
        ctx.fail("independent", f"{spec['way']} of the filters of {spec['wav']}: an edit of the "
                                "copy shows in the original")
    if not all(torch.equal(a, b) for a, b in zip(tensors(pytree(out)), kept[1])):
        ctx.fail("independent", f"{name}: an edit of the copy shows in the original")
    ctx.judged("independent")


MODULES = {"product": "ProductFilter", "soft": "SoftOrthogonalWavelet",
           "shan1.5-1.0": "_ShannonWavelet", "cmor1.5-1.0": "_ComplexMorletWavelet",
           "shan0.5-2.0": "_ShannonWavelet"}


def module(spec):
    """A trained module, as far as its parameters differ from the initial ones."""
    if spec["cls"] in ("product", "soft"):
        bank = ptwt.WaveletTensorTuple.from_wavelet(pywt.Wavelet(spec["wav"]),
                                                    gen.DTYPES[spec["dtype"]])
        m = getattr(wl, MODULES[spec["cls"]])(*(t.clone() for t in bank))
    else:
        m = getattr(ct, MODULES[spec["cls"]])(spec["cls"])
    g = torch.Generator().manual_seed(spec["ds"] % 2**31)
    with torch.no_grad():
        for p in m.parameters():
            p.mul_(1 + 0.2 * torch.rand(p.shape, generator=g, dtype=p.dtype))
    return m


def answer(m, spec):
    x = gen.tensor({"shape": [2, 48], "ds": spec["ds"], "dtype": spec["dtype"]})
    with torch.no_grad():
        if isinstance(m, wl.WaveletFilter):
            co = ptwt.wavedec(x, m.filter_bank, level=2, mode="zero")
            return [*co, ptwt.waverec(co, m.filter_bank), m.wavelet_loss()]
        out = ptwt.cwt(x, np.array([2.0, 3.5]), m)
        return [out[0], torch.as_tensor(out[1]), m.wavefun(5)[0]]


def modules(ctx, spec):
    """Learnable wavelets keep what they have learned."""
    name = f"{spec['way']} of a trained {MODULES[spec['cls']]}" + \
        (" within a ModuleList" if spec["nested"] else "")
    m = module(spec)
    ref = answer(m, spec)
    holder = torch.nn.ModuleList([m]) if spec["nested"] else m
    if spec["way"] == "state_dict":
        new = module(dict(spec, ds=spec["ds"] + 1))
        held = torch.nn.ModuleList([new]) if spec["nested"] else new
        held.load_state_dict(saved(holder.state_dict()))
    else:
        held = WAYS[spec["way"]](holder)
        new = held[0] if spec["nested"] else held
    if type(new) is not type(m):
        ctx.fail("module", f"{name} is a {type(new).__name__}")
    mine, theirs = dict(m.named_parameters()), dict(new.named_parameters())
    if sorted(mine) != sorted(theirs) or any(
            not torch.equal(p, theirs[k]) or p.dtype != theirs[k].dtype
            or p.requires_grad != theirs[k].requires_grad for k, p in mine.items()):
        ctx.fail("module", f"{name}: parameters {sorted(theirs)} differ from {sorted(mine)}")
    U.compare(ctx, answer(new, spec), ref, f"{name}: answer", "module", exact=True)
    ctx.judged("module")
    # training the copy leaves the original alone, and the other way round
    a, b = (new, m) if spec["ds"] % 2 else (m, new)
    with torch.no_grad():
        for p in a.parameters():
            p.mul_(0.5)
    U.compare(ctx, answer(b, spec), ref, f"{name}: answer after the other one was trained",
              "independent", exact=True)
    ctx.judged("independent")
    if spec["cls"] not in ("product", "soft"):
        # the parameters in use are those the optimizer sees
        changed = answer(a, spec)
        if torch.equal(changed[2], ref[2]):
            ctx.fail("module", f"{name}: does not use its parameters")
