"""C20: malformed calls are rejected, never answered with a result, and do no damage."""

import pywt
import torch

import ptwt
from ptwt.constants import WaveletTensorTuple
from mon import cases, gen, hooks, matrix, packetmodel, universe as U

COUNT = {"quick": 9000, "thorough": 120000}
RULE = ("a random valid call of a random transform is made invalid in exactly one way (dtype, number "
        "of dimensions, axes, mode, wavelet, filters, level, orthogonalisation, or one coefficient of the "
        "container); the oracle demands an exception (of the documented class where one is "
        "documented), unchanged arguments, and that an object used in the call still gives the "
        "result of a fresh object for the valid input; non-trivial = the call was judged; distinct "
        "by description of the call and of the defect")
ASSUMPTIONS = ["only defects listed in mon/props/c20.py are injected"]
REQUIRED = ["dtype", "dims", "axes-repeated", "axes-count", "axes-int", "axes-range", "mode",
            "wavelet", "filters", "level", "orth", "approx", "coeff-dtype", "coeff-device", "coeff-none",
            "coeff-type", "coeff-count", "coeff-size", "packet-key", "packet-level",
            "packet-uninit", "packet-leaf", "packet-order", "packet-data", "infeasible",
            "unharmed"]
MIN_JUDGED = 8000

BAD_DTYPES = [torch.int32, torch.int64, torch.int8, torch.float16, torch.bfloat16,
              torch.complex64, torch.complex128, torch.bool, torch.uint8]
INV = U.REC + U.IMAT + ["iswt"]
DWT = [u for u in U.ALL if u != "cwt"]
FLAWS = {
    "dtype": [u for u in DWT if u not in ("rp1", "rp2")],
    "dims": [u for u in DWT if u not in ("rp1", "rp2")],
    "axes-repeated": [u for u in DWT if U.ND[u] > 1 and u != "rp2"],
    "axes-count": [u for u in DWT if u not in ("rp1", "rp2")],
    "axes-int": [u for u in DWT if U.ND[u] > 1 and u != "rp2"],
    "axes-range": [u for u in DWT if u not in ("rp1", "rp2")],
    "mode": U.CONV + ["wp1", "wp2"],
    "wavelet": U.ALL,
    "filters": [u for u in DWT if u not in ("rp1", "rp2")],
    "level": U.MAT,
    "orth": U.MAT + U.IMAT + ["wp1", "wp2"],
    "approx": INV,
    "coeff-dtype": INV,
    "coeff-device": INV,
    "coeff-none": INV,
    "coeff-type": INV,
    "coeff-count": [u for u in INV if U.ND[u] > 1],
    "coeff-size": INV,
    "packet-key": ["wp1", "wp2"],
    "packet-level": ["wp1", "wp2"],
    "packet-uninit": ["wp1", "wp2"],
    "packet-leaf": ["wp1", "wp2"],
    "packet-order": ["wp1", "wp2"],
    "packet-data": ["wp1", "wp2"],
    "infeasible": ["wavedec", "wavedec2", "wavedec3", "fswavedec2", "fswavedec3"],
    "scale": ["cwt"],
}
NAMES = list(FLAWS)
# the class the documentation or the existing tests name; else any exception
VALUE = {"dtype", "axes-count", "axes-int", "mode", "level", "approx", "coeff-dtype",
         "coeff-device", "wavelet", "packet-uninit", "packet-order", "coeff-none"}


def setup(ctx):
    hooks.install(ctx, {})


def generate(rng, idx, tier):
    flaw = NAMES[idx % len(NAMES)]
    pool = FLAWS[flaw]
    u = pool[(idx // len(NAMES)) % len(pool)]
    if u in ("m2n", "im2n") and rng.random() < 0.5:
        u = u[:-1] + "s"
    axes = flaw not in ("dims",)
    spec = U.generate(rng, idx, u, axes=axes, dtypes=("f32", "f64"), layouts=False)
    if spec is None:
        return None
    if flaw == "dims":
        spec["axes"] = None
    spec["flaw"] = flaw
    spec["fs"] = rng.randrange(2**31)
    return spec


def whole(det, fn):
    """Apply fn to all tensors of a detail element."""
    if isinstance(det, torch.Tensor):
        return fn(det)
    if isinstance(det, dict):
        return {k: fn(v) for k, v in det.items()}
    return type(det)(*map(fn, det)) if hasattr(det, "_fields") else tuple(map(fn, det))


def replace(det, rng, fn):
    """Apply fn to one tensor of a detail element."""
    if isinstance(det, torch.Tensor):
        return fn(det)
    if isinstance(det, dict):
        key = rng.choice(sorted(det))
        return {k: fn(v) if k == key else v for k, v in det.items()}
    pos = rng.randrange(len(det))
    return type(det)(*(fn(v) if i == pos else v for i, v in enumerate(det)))


def kwargs(spec, **over):
    """Program with changed arguments; axes may be malformed."""
    u, w = spec["u"], over.pop("w", None)
    nd = U.ND[u]
    if w is None:
        w = gen.wavelet(spec, cases.dtype_of(spec))
    kw = {}
    ax = over.pop("axes", spec.get("axes"))
    if ax is not None:
        kw = {"axis": ax} if nd == 1 else {"axes": ax}
    if u in U.CONV:
        kw.update(mode=spec["mode"], level=spec["level"])
        kw.update(over)
        return lambda t: getattr(ptwt, u)(t, w, **kw)
    if u in U.REC or u == "iswt":
        return lambda t: getattr(ptwt, u)(t, w, **kw)
    if u == "swt":
        return lambda t: ptwt.swt(t, w, level=spec["level"], **kw)
    if u in U.MAT or u in U.IMAT:
        name = ("MatrixWaverec" if u in U.IMAT else "MatrixWavedec") + (str(nd) if nd > 1 else "")
        if nd == 2:
            kw["separable"] = u.endswith("s")
        kw["orthogonalization"] = over.get("orth", spec["orth"])
        if u in U.MAT:
            kw["level"] = over.get("level", spec["level"])
        return lambda t: getattr(ptwt, name)(w, **kw)(t)
    cls = ptwt.WaveletPacket if nd == 1 else ptwt.WaveletPacket2D
    if nd == 2:
        kw["separable"] = spec.get("sep", False)
    kw.update(mode=over.get("mode", spec["mode"]), maxlevel=over.get("maxlevel", 1),
              orthogonalization=over.get("orth", spec.get("orth", "qr")))
    return lambda t: cls(t, w, **kw)["a"]


def total_axes(spec):
    return len(spec["shape"])


def case(ctx, spec):
    import random

    flaw, u = spec["flaw"], spec["u"]
    nd = U.ND[u]
    rng = random.Random(spec["fs"])
    name = U.name_of(spec)
    if flaw == "infeasible":
        return infeasible(ctx, spec, rng)
    if flaw.startswith("packet"):
        return packet(ctx, spec, rng)
    tree = U.build_input(spec)
    wrong, call, what = tree, None, ""
    expected = ValueError if flaw in VALUE else Exception
    if flaw == "dtype":
        dt = rng.choice(BAD_DTYPES)
        wrong, what = U.tmap(lambda t: t.to(dt), tree), str(dt)
    elif flaw == "dims":
        dims = rng.randrange(nd)
        shape = [1] * dims

        def small(t):
            t = t.reshape(-1)[:1]
            return t.reshape(shape)

        wrong, what = U.tmap(small, tree), f"{dims} dimensions"
        expected = ValueError if u not in ("wp1", "wp2") else Exception
    elif flaw == "axes-repeated":
        n = total_axes(spec)
        ax = rng.sample(range(n), nd)
        ax = [a - n if rng.random() < 0.5 else a for a in ax]
        i, j = rng.sample(range(nd), 2)
        ax[j] = ax[i]
        expected = ValueError
        if rng.random() < 0.4:
            ax[j] = ax[i] - n if ax[i] >= 0 else ax[i] + n
            expected = Exception
        what, call = f"axes {ax}", kwargs(spec, axes=tuple(ax))
    elif flaw == "axes-count":
        k = rng.choice([c for c in range(0, 5) if c != nd])
        ax = tuple(range(-k, 0))
        what, call = f"axes {ax}", kwargs(spec, axes=ax)
    elif flaw == "axes-int":
        ax = rng.randrange(-2, 2)
        what, call = f"axis {ax}", kwargs(spec, axes=ax)
    elif flaw == "axes-range":
        n = total_axes(spec)
        ax = list(range(-nd, 0))
        ax[rng.randrange(nd)] = rng.choice([n, n + 1, -n - 1, -n - 2, 17])
        what = f"axes {ax}"
        call = kwargs(spec, axes=ax[0] if nd == 1 else tuple(ax))
    elif flaw == "mode":
        mode = rng.choice(["antireflect", "Zero", "circular", "replicate", "smooth", "",
                           "periodization", "boundary" if u in U.CONV else "sym"])
        what, call = f"mode {mode!r}", kwargs(spec, mode=mode)
    elif flaw == "wavelet":
        what, call = "wavelet 'db0'", None
        bad = dict(spec, wav="db0", wform="str")

        def call(t):
            return U.make(bad)(t)
    elif flaw == "filters":
        w, cut, expected = other_lengths(spec, rng)
        what, call = f"a filter tuple of the lengths {cut}", kwargs(spec, w=w)
    elif flaw == "level":
        lev = rng.choice([0, -1, -3])
        what, call = f"level {lev}", kwargs(spec, level=lev)
    elif flaw == "orth":
        what, call = "orthogonalization 'lu'", kwargs(spec, orth="lu")
        expected = NotImplementedError
    elif flaw == "scale":
        s = rng.choice([0.005, 0.002])
        expected = ValueError
        what, call = f"scale {s}", U.make(dict(spec, scales=[s]))
    else:
        wrong, what, expected = container(spec, rng, tree, flaw, expected)
        if wrong is None:
            ctx.count("not-applicable:" + flaw)
            return
    if call is None:
        call = U.make(spec)
    before = [(t, t.detach().clone()) for t in U.leaves(tree)
              if isinstance(t, torch.Tensor) and t.device.type == "cpu"]
    try:
        got = call(wrong)
    except expected:
        pass
    except Exception as e:  # noqa: BLE001
        ctx.fail(f"class:{flaw}", f"{name} with {what}: {type(e).__name__} ({str(e)[:150]}) "
                                  f"instead of {expected.__name__}")
    else:
        shapes = [tuple(t.shape) for t in U.leaves(got)][:4]
        ctx.fail(f"accepted:{flaw}", f"{name} with {what} returned a result of shapes {shapes}")
    ctx.judged(flaw)
    for t, c in before:
        if not torch.equal(t, c):
            ctx.fail("damaged", f"{name} with {what}: argument changed by the rejected call")
    ctx.sig(name + flaw + what)
    if u in U.OBJECTS and flaw in ("dtype", "dims", "approx", "coeff-dtype", "coeff-device",
                                   "coeff-none", "coeff-type", "coeff-count", "coeff-size"):
        obj = U.make(spec)
        if rng.random() < 0.5:
            obj(tree)
        try:
            obj(wrong)
        except Exception:  # noqa: BLE001, S110
            pass
        U.compare(ctx, obj(tree), U.make(spec)(tree),
                  f"{name} after a call with {what} was rejected", "unharmed", 1e-9
                  if spec["dtype"] == "f64" else 1e-3)
        ctx.judged("unharmed")


def other_lengths(spec, rng):
    """Filters of the wavelet, of which some have got another length."""
    u = spec["u"]
    bank = [torch.tensor(f, dtype=cases.dtype_of(spec))
            for f in gen.oracle_wavelet(gen.wavelet(spec)).filter_bank]
    boundary = u in U.MAT or u in U.IMAT or (u in ("wp1", "wp2")
                                             and spec["mode"] == "boundary")
    if boundary:
        # all of them, documented to raise
        k = rng.randrange(1, 15)
    elif u in U.REC or u == "iswt":
        k = rng.choice([4, 8])
    else:
        k = rng.choice([1, 2])
    more = rng.random() < 0.5 or len(bank[0]) < 4
    for i in range(4):
        if k >> i & 1:
            bank[i] = torch.cat([bank[i], bank[i][:2] * 0]) if more else bank[i][1:-1]
    return (WaveletTensorTuple(*bank), [len(f) for f in bank],
            ValueError if boundary else Exception)


def container(spec, rng, tree, flaw, expected):
    """The coefficient container with one flaw."""
    lst = list(tree)
    make = type(tree)
    if len(lst) < 2:
        return None, None, None
    k = rng.randrange(1, len(lst))
    nd = U.ND[spec["u"]]
    d = lst[k]

    def put(v):
        return make(lst[:k] + [v] + lst[k + 1:])

    if flaw == "approx":
        v = rng.choice([None, lst[0].tolist(), lst[0].numpy(), 3.0])
        return make([v] + lst[1:]), f"approximation {type(v).__name__}", expected
    if flaw == "coeff-dtype":
        other = torch.float32 if spec["dtype"] == "f64" else torch.float64
        other = rng.choice([other, other, torch.float16, torch.int64, torch.complex64])
        if rng.random() < 0.2:
            return make([lst[0].to(other)] + lst[1:]), f"approximation {other}", expected
        return put(replace(d, rng, lambda t: t.to(other))), f"detail {k} {other}", expected
    if flaw == "coeff-device":
        if rng.random() < 0.2:
            return make([lst[0].to("meta")] + lst[1:]), "approximation on another device", expected
        return put(replace(d, rng, lambda t: t.to("meta"))), f"detail {k} on meta", expected
    if flaw == "coeff-none":
        v = rng.choice([None, 3.0, "aad"])
        return put(v), f"detail {k} {v!r}", expected
    if flaw == "coeff-type":
        if isinstance(d, torch.Tensor):
            v = rng.choice([(d, d, d), {"a": d}, [d, d, d]])
        elif isinstance(d, dict):
            v = rng.choice([tuple(d.values()), list(d.values()), next(iter(d.values()))])
        else:
            v = rng.choice([list(d), {"ad": d[0], "da": d[1], "dd": d[2]}, d[0]])
        return put(v), f"detail {k} of type {type(v).__name__}", Exception
    if flaw == "coeff-count":
        if isinstance(d, dict):
            key = rng.choice(sorted(d))
            v = {a: b for a, b in d.items() if a != key}
            r = rng.random()
            if r < 0.3:
                v["q" * nd] = d[key]
            elif r < 0.5 and not spec["u"].startswith("fs"):
                v = {**d, "q" * nd: d[key]}
            return put(v), f"detail {k} with keys {sorted(v)}", Exception
        n = rng.choice([1, 2, 4, 5])
        v = tuple((list(d) * 2)[:n])
        return put(v), f"detail {k} with {n} entries", ValueError
    # coeff-size: two more along a transformed axis, or twice the batch
    axes = [a % lst[0].dim() for a in (spec["axes"] or range(-nd, 0))]
    batch = [a for a in range(lst[0].dim()) if a not in axes]
    if batch and rng.random() < 0.4:
        b = rng.choice(batch)
        return (put(replace(d, rng, lambda t: torch.cat([t, t], b))),
                f"detail {k} twice along axis {b}",
                ValueError if spec["u"] in ("waverec2", "waverec3") else Exception)
    a = rng.choice(axes)
    first = next(iter(U.leaves(d)))
    size = first.shape[a]
    if size > 2 and rng.random() < 0.5:
        # a consistent level that does not fit to its neighbours
        cut = rng.randrange(2, size)

        def shrink(t):
            return t.narrow(a, 0, size - cut)

        return put(whole(d, shrink)), f"all details {k} shorter by {cut} along axis {a}", Exception
    if rng.random() < 0.3:
        more = rng.choice([2, 3, 4, size])
        more = max(more, 2)

        def widen(t):
            shape = list(t.shape)
            shape[a] = more
            return torch.cat([t, torch.ones(shape, dtype=t.dtype)], a)

        return put(whole(d, widen)), f"all details {k} longer by {more} along axis {a}", Exception

    def grow(t, by=2):
        shape = list(t.shape)
        shape[a] = by
        return torch.cat([t, torch.ones(shape, dtype=t.dtype)], a)

    if k == 1 and rng.random() < 0.4:
        n = lst[0].shape[a]
        if n > 1 and rng.random() < 0.3:
            return (make([lst[0].narrow(a, 0, n - 1)] + lst[1:]),
                    f"approximation shorter by one along {a}", Exception)
        by = rng.choice([1, 1, 2])
        return make([grow(lst[0], by)] + lst[1:]), f"approximation {by} longer along {a}", Exception
    return put(replace(d, rng, grow)), f"detail {k} longer along axis {a}", Exception


def infeasible(ctx, spec, rng):
    """Padding that torch cannot do: an exception or the values of pywt, nothing else."""
    u, nd = spec["u"], U.ND[spec["u"]]
    spec = dict(spec, wform="str", mode=rng.choice(["reflect", "periodic"]), dtype="f64",
                axes=None)
    spec["wav"] = rng.choice(["db4", "db6", "sym5", "coif1", "db3"] if nd < 3 else ["db3", "db2"])
    fl = gen.flen(spec["wav"])
    shape = [rng.choice([1, 2])] + [rng.randrange(1, fl) for _ in range(nd)]
    spec["shape"], spec["level"] = shape, rng.choice([1, 1, 2])
    name = U.name_of(spec)
    x = gen.tensor(dict(spec, layout="contig"))
    ctx.sig(name)
    try:
        got = U.make(spec)(x)
    except Exception:  # noqa: BLE001
        ctx.judged("infeasible")
        ctx.count("infeasible_rejected")
        return
    import warnings

    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        ref = pywt.wavedecn(x.numpy(), spec["wav"], mode=spec["mode"], level=spec["level"],
                            axes=tuple(range(-nd, 0)))
    pairs = [(got[0], ref[0])]
    for d, r in zip(got[1:], ref[1:]):
        if isinstance(d, torch.Tensor):
            pairs.append((d, r["d"]))
        elif isinstance(d, dict):
            pairs.extend((d[k], r[k]) for k in r)
        else:
            pairs.extend(zip(d, (r["da"], r["ad"], r["dd"])))
    for g, r in pairs:
        if g.shape != r.shape or abs(g.numpy() - r).max() > 1e-9 * (1 + abs(r).max()):
            ctx.fail("infeasible", f"{name}: result differs from pywt instead of an exception")
    ctx.judged("infeasible")
    ctx.count("infeasible_answered")


def packet(ctx, spec, rng):
    nd = spec["nd"]
    name = U.name_of(spec)
    letters = packetmodel.LETTERS[nd]
    cls = ptwt.WaveletPacket if nd == 1 else ptwt.WaveletPacket2D
    x = gen.tensor(dict(spec, layout="contig"))
    flaw = spec["flaw"]
    lev = packetmodel.level_of(spec)
    ctx.sig(name + flaw + str(spec["fs"] % 50))

    def rand_key(n):
        return "".join(rng.choice(letters) for _ in range(n))

    def expect(fn, exc, what):
        try:
            fn()
        except exc:
            ctx.judged(flaw)
        except Exception as e:  # noqa: BLE001
            ctx.fail(f"class:{flaw}", f"{name}: {what}: {type(e).__name__} ({str(e)[:100]})")
        else:
            ctx.fail(f"accepted:{flaw}", f"{name}: {what} was answered")

    if flaw == "packet-uninit":
        w = gen.wavelet(spec, cases.dtype_of(spec))
        tree = cls(None, w, mode=spec["mode"])
        for key in ("", rand_key(1), rand_key(2)):
            expect(lambda: tree[key], ValueError, f"node {key!r} before transform")
        return
    if flaw == "packet-order":
        expect(lambda: cls.get_level(2, rng.choice(["frequency", "", "Freq"])), ValueError,
               "unknown node order")
        return
    tree = packetmodel.make(dict(spec), x)
    if flaw == "packet-key":
        if lev < 1:
            ctx.count("not-applicable:packet-key")
            return
        n = rng.randrange(1, lev + 1)
        key = list(rand_key(n))
        key[rng.randrange(n)] = rng.choice("xAB0 h" if nd == 1 else "xAB0 D")
        key = "".join(key)
        expect(lambda: tree[key], ValueError, f"node {key!r}")
    elif flaw == "packet-level":
        key = rand_key(lev + rng.choice([1, 1, 2]))
        expect(lambda: tree[key], KeyError, f"node {key!r} beyond level {lev}")
    elif flaw == "packet-data":
        tree[rand_key(min(lev, 1))]
        before = dict(tree.data), tree.maxlevel
        bad = rng.choice([torch.zeros(()), torch.zeros([7] * (nd - 1)), None, [1.0, 2.0], "x"])
        expect(lambda: tree.transform(bad), Exception, f"transform of {bad!r}")
        if tree.maxlevel != before[1] or list(tree.data) != list(before[0]) or \
                any(tree.data[k] is not v for k, v in before[0].items()):
            ctx.fail("damaged", f"{name}: nodes {list(tree.data)}, level {tree.maxlevel} after a "
                                f"rejected transform instead of {list(before[0])}, {before[1]}")
    else:
        if lev < 1:
            ctx.count("not-applicable:packet-leaf")
            return
        from itertools import product

        keys = ["".join(p) for p in product(letters, repeat=lev)]
        drop = rng.choice(keys)
        # siblings are computed together, so delete one leaf
        for k in keys:
            tree[k]
        del tree.data[drop]
        expect(lambda: tree.reconstruct(), KeyError, f"reconstruct without leaf {drop!r}")
    # the tree still answers valid requests
    if lev >= 1 and flaw != "packet-leaf":
        good = rand_key(rng.randrange(1, lev + 1))
        ref = packetmodel.make(dict(spec), x)[good]
        U.compare(ctx, tree[good], ref, f"{name}: node {good!r} after a rejected request",
                  "unharmed", 1e-9 if spec["dtype"] == "f64" else 1e-3)
        ctx.judged("unharmed")
    _ = matrix
