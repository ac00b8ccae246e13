"""C25: arguments which mean the same give the same results, however they are spelt."""

import warnings

import numpy as np
import pywt
import torch

import ptwt
from mon import cases, gen, hooks, matrix, packetmodel, universe as U

COUNT = {"quick": 1800, "thorough": 30000}
RULE = ("random program out of all transforms and inverses called in every spelling that applies: "
        "the wavelet as name, alias name, pywt object, user object, tensor tuple or learnable "
        "wavelet; axes counted from either end, as list, tuple, integer or numpy integer, or "
        "omitted; defaults spelt out or omitted; level None or the maximal level; deprecated "
        "argument names; positional or keyword; coefficient containers as list or tuple, plain "
        "tuples for named tuples, dictionaries in another key order; scales as array or tensor; "
        "data passed to the constructor or to transform(); all must agree with the first "
        "spelling; non-trivial = one pair of spellings was compared; distinct by program")
ASSUMPTIONS = ["only spellings that the signatures and docstrings name are used"]
REQUIRED = ["wavelet", "axes", "default", "level", "alias", "container", "keyword", "scales",
            "constructor", "conflict"]
MIN_JUDGED = 6000
TWINS = {"haar": ["db1", "bior1.1", "rbio1.1"], "db1": ["haar"], "bior1.1": ["haar"],
         "rbio1.1": ["db1"], "db2": ["sym2"], "sym2": ["db2"], "db3": ["sym3"], "sym3": ["db3"]}
DEFAULT_MODE = {"wavedec": "reflect", "wavedec2": "reflect", "wavedec3": "zero",
                "fswavedec2": "reflect", "fswavedec3": "reflect"}


def setup(ctx):
    hooks.install(ctx, {})


def generate(rng, idx, tier):
    u = U.ALL[idx % len(U.ALL)]
    if u in ("rp1", "rp2"):
        u = rng.choice(["wp1", "wp2"])
    spec = U.generate(rng, idx, u, dtypes=("f64", "f64", "f32"))
    if spec is None:
        return None
    spec["wform"] = "str"
    if rng.random() < 0.25 and u != "cwt" and spec.get("orth") != "gramschmidt":
        spec["wav"] = rng.choice(sorted(TWINS)) if U.ND[u] == 1 else rng.choice(["haar", "db1"])
        if not possible(spec):
            spec["wav"] = "haar"
    if u in U.CONV and rng.random() < 0.4:
        spec["mode"] = DEFAULT_MODE[u]
        if not all(gen.pad_ok(spec["shape"][a], gen.flen(spec["wav"]), spec["mode"],
                              spec["level"]) for a in axes_of(spec)):
            spec["mode"] = "zero"
    if not possible(spec):
        return None
    return spec


def axes_of(spec):
    nd = U.ND[spec["u"]]
    return list(spec["axes"]) if spec.get("axes") is not None else list(range(-nd, 0))


def possible(spec):
    u = spec["u"]
    if u in U.MAT or u in U.IMAT:
        return bool(matrix.structure(spec)[0])
    if u in U.CONV or u in U.REC:
        return all(gen.pad_ok(spec["shape"][a], gen.flen(spec["wav"]), spec["mode"],
                              spec["level"]) for a in axes_of(spec))
    if u in ("wp1", "wp2"):
        return packetmodel.feasible(spec) and packetmodel.level_of(spec) > 0
    return True


def axes_spellings(spec):
    """Values of axis/axes which mean the same; None stands for an omitted argument."""
    nd = U.ND[spec["u"]]
    total = len(spec["shape"])
    ax = axes_of(spec)
    pos = [a % total for a in ax]
    neg = [a - total for a in pos]
    if nd == 1:
        out = [pos[0], neg[0]]
    else:
        mixed = [p if i % 2 else n for i, (p, n) in enumerate(zip(pos, neg))]
        out = [tuple(pos), tuple(neg), tuple(mixed)]
        if spec["u"] not in ("wavedec2", "wavedec3"):
            out.append(list(pos))
    if neg == list(range(-nd, 0)):
        out.append("omit")
    return out


def case(ctx, spec):
    name = U.name_of(spec)
    ctx.sig(name)
    u = spec["u"]
    fn = {"cwt": cwt, "wp1": packet, "wp2": packet}.get(u)
    if fn is None:
        fn = objects if u in U.OBJECTS else functions
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        fn(ctx, spec, name)


class Judge:
    """Compare every further spelling with the first one."""

    def __init__(self, ctx, name, ref, tol=None):
        self.ctx, self.name, self.ref, self.tol = ctx, name, ref, tol

    def __call__(self, kind, label, fn):
        got = fn()
        U.compare(self.ctx, got, self.ref, f"{self.name}: {label}", kind, self.tol)
        self.ctx.judged(kind)


def wavelets(spec, functional):
    name = spec["wav"]
    dt = gen.DTYPES[spec["dtype"]]
    w = pywt.Wavelet(name)
    out = {"pywt object": w, "renamed pywt object": pywt.Wavelet("other", w.filter_bank),
           "user object": gen.PlainWavelet(name, w.filter_bank),
           "upper-case name": name.upper() if not name.startswith("dmey") else name}
    for t in TWINS.get(name, []):
        if np.allclose(pywt.Wavelet(t).filter_bank, w.filter_bank, atol=1e-15, rtol=0):
            out["alias name " + t] = t
    if functional:
        out["tensor tuple"] = ptwt.WaveletTensorTuple.from_wavelet(w, dt)
        out["double tensor tuple"] = ptwt.WaveletTensorTuple.from_wavelet(w, torch.float64)
    return out


def base_tol(spec):
    # filters that went through another representation may differ in the last bit
    return 1e-10 if spec["dtype"] == "f64" else 1e-4


def functions(ctx, spec, name):
    u = spec["u"]
    fn = getattr(ptwt, u)
    tree = U.tmap(lambda t: t.detach(), U.build_input(spec))
    key = "axis" if U.ND[u] == 1 else "axes"
    kw = {}
    if spec.get("axes") is not None:
        kw[key] = spec["axes"][0] if U.ND[u] == 1 else tuple(spec["axes"])
    analysis = u in U.CONV + ["swt"]
    if analysis:
        kw["level"] = spec["level"]
    if u in U.CONV:
        kw["mode"] = spec["mode"]
    w = spec["wav"]
    judge = Judge(ctx, name, fn(tree, w, **kw), base_tol(spec))
    for label, v in wavelets(spec, True).items():
        judge("wavelet", label, lambda: fn(tree, v, **kw))
    if u not in ("swt", "iswt"):
        from ptwt.wavelets_learnable import ProductFilter

        dt = gen.DTYPES[spec["dtype"]]
        m = ProductFilter(*(torch.tensor(f, dtype=dt) for f in pywt.Wavelet(w).filter_bank))
        judge("wavelet", "learnable wavelet", lambda: fn(tree, m, **kw))
    for a in axes_spellings(spec):
        k = {q: v for q, v in kw.items() if q != key}
        if a != "omit":
            k[key] = a
        judge("axes", f"{key} spelt {a}", lambda: fn(tree, w, **k))
    first = "data" if analysis else "coeffs"
    judge("keyword", "keyword arguments", lambda: fn(**{first: tree, "wavelet": w}, **kw))
    if u in U.CONV:
        if spec["mode"] == DEFAULT_MODE[u]:
            k = {q: v for q, v in kw.items() if q != "mode"}
            judge("default", "mode omitted", lambda: fn(tree, w, **k))
        top = min(gen.max_level(spec["shape"][a], gen.flen(w)) for a in axes_of(spec))
        if top and all(gen.pad_ok(spec["shape"][a], gen.flen(w), spec["mode"], top)
                       for a in axes_of(spec)):
            k = dict(kw, level=top)
            other = Judge(ctx, name, fn(tree, w, **k), base_tol(spec))
            k = dict(kw, level=None)
            other("level", f"level None instead of {top}", lambda: fn(tree, w, **k))
            other("level", f"level None instead of {top}, pywt object",
                  lambda: fn(tree, pywt.Wavelet(w), **k))
            k = {q: v for q, v in kw.items() if q != "level"}
            other("level", f"level omitted instead of {top}", lambda: fn(tree, w, **k))
    if u == "swt":
        top = pywt.swt_max_level(spec["shape"][axes_of(spec)[0]])
        if 0 < top <= 5:
            k = dict(kw, level=top)
            other = Judge(ctx, name, fn(tree, w, **k), base_tol(spec))
            k = {q: v for q, v in kw.items() if q != "level"}
            other("level", f"level omitted instead of {top}", lambda: fn(tree, w, **k))
            judge("keyword", "level positional", lambda: fn(tree, w, spec["level"], **k))
    if u in U.REC + ["iswt"]:
        for label, t in containers(tree, u):
            judge("container", label, lambda: fn(t, w, **kw))


def containers(tree, u):
    """Other containers for the same coefficients."""
    out = []
    if u in ("waverec", "iswt"):
        out += [("coefficients as tuple", tuple(tree)), ("coefficients as list", list(tree))]
    if u == "waverec2":
        t = (tree[0], *(tuple(d) for d in tree[1:]))
        out.append(("plain detail tuples", t))
        out.append(("keyword detail tuples", (tree[0], *(ptwt.WaveletDetailTuple2d(
            diagonal=d[2], vertical=d[1], horizontal=d[0]) for d in tree[1:]))))
    if isinstance(tree[-1], dict):
        out.append(("keys in reverse order", (tree[0], *(dict(reversed(list(d.items())))
                                                         for d in tree[1:]))))
        out.append(("keys in sorted order", (tree[0], *({k: d[k] for k in sorted(d)}
                                                        for d in tree[1:]))))
    return out


def objects(ctx, spec, name):
    u = spec["u"]
    cls = getattr(ptwt, (matrix.FWD if u in U.MAT else matrix.INV)[spec["cls"]])
    tree = U.tmap(lambda t: t.detach(), U.build_input(spec))
    key = "axis" if U.ND[u] == 1 else "axes"
    kw = {"orthogonalization": spec["orth"]}
    if spec.get("axes") is not None:
        kw[key] = spec["axes"][0] if U.ND[u] == 1 else tuple(spec["axes"])
    if U.ND[u] == 2:
        kw["separable"] = spec["cls"] == "m2s"
    if u in U.MAT:
        kw["level"] = spec["level"]
    w = spec["wav"]
    judge = Judge(ctx, name, cls(w, **kw)(tree), 1e-8 if spec["dtype"] == "f64" else 1e-2)
    for label, v in wavelets(spec, False).items():
        judge("wavelet", label, lambda: cls(v, **kw)(tree))
    for a in axes_spellings(spec):
        k = {q: v for q, v in kw.items() if q != key}
        if a != "omit":
            k[key] = a
        judge("axes", f"{key} spelt {a}", lambda: cls(w, **k)(tree))
    judge("keyword", "keyword arguments", lambda: cls(wavelet=w, **kw)(tree))
    k = {q: v for q, v in kw.items() if q != "orthogonalization"}
    judge("alias", "deprecated argument boundary", lambda: deprecated(
        ctx, name, cls, (w,), dict(k, boundary=spec["orth"]))(tree))
    conflict(ctx, name, lambda: cls(w, **kw, boundary=spec["orth"]))
    if spec["orth"] == "qr":
        judge("default", "orthogonalization omitted", lambda: cls(w, **k)(tree))
    if kw.get("separable"):
        k = {q: v for q, v in kw.items() if q != "separable"}
        judge("default", "separable omitted", lambda: cls(w, **k)(tree))
    if u in U.MAT:
        judge("default", "odd_coeff_padding_mode spelt out",
              lambda: cls(w, **kw, odd_coeff_padding_mode="zero")(tree))
        k = {q: v for q, v in kw.items() if q != "level"}
        judge("keyword", "level positional", lambda: cls(w, spec["level"], **k)(tree))
        if spec["level"] is None:
            judge("level", "level omitted", lambda: cls(w, **k)(tree))
            sizes = matrix.sizes_of(spec)
            if spec["cls"] == "m1":
                sizes = [sizes[0] + sizes[0] % 2]
            lev = matrix.auto_level(sizes, gen.flen(w))
            if lev > 0:
                judge("level", f"level {lev} instead of None", lambda: cls(w, lev, **k)(tree))
    else:
        rec = {"im1": "waverec", "im3": "waverec3"}.get(u, "waverec2")
        for label, t in containers(tree, rec):
            judge("container", label, lambda: cls(w, **kw)(t))


def deprecated(ctx, name, cls, args, kw):
    with warnings.catch_warnings(record=True) as seen:
        warnings.simplefilter("always")
        obj = cls(*args, **kw)
    seen = [s for s in seen if issubclass(s.category, DeprecationWarning)]
    if not seen:
        ctx.fail("alias", f"{name}: no DeprecationWarning for {sorted(kw)}")
    if any("/src/ptwt/" in s.filename for s in seen):
        ctx.fail("alias", f"{name}: the DeprecationWarning for {sorted(kw)} names "
                          f"{seen[0].filename}:{seen[0].lineno} and not the caller, python hides it")
    return obj


def conflict(ctx, name, fn):
    try:
        fn()
    except TypeError:
        ctx.judged("conflict")
        return
    ctx.fail("conflict", f"{name}: an argument given under its old and new name is accepted")


def packet(ctx, spec, name):
    nd = spec["nd"]
    cls = ptwt.WaveletPacket if nd == 1 else ptwt.WaveletPacket2D
    lev = packetmodel.level_of(spec)
    x = gen.tensor(spec).detach()
    key = "axis" if nd == 1 else "axes"
    kw = {"mode": spec["mode"], "maxlevel": spec["maxlevel"]}
    if spec["mode"] == "boundary":
        kw["orthogonalization"] = spec["orth"]
    if nd == 2:
        kw["separable"] = spec["sep"]
    if spec["axes"]:
        kw[key] = spec["axes"][0] if nd == 1 else tuple(spec["axes"])
    w = spec["wav"]
    rng = np.random.default_rng(spec["ds"])
    letters = packetmodel.LETTERS[nd]
    paths = sorted({"".join(rng.choice(list(letters), lev)) for _ in range(3)} | {letters[-1]})

    def read(tree):
        return {p: tree[p] for p in paths}

    judge = Judge(ctx, name, read(cls(x, w, **kw)), 1e-8 if spec["dtype"] == "f64" else 1e-3)
    for label, v in wavelets(spec, False).items():
        judge("wavelet", label, lambda: read(cls(x, v, **kw)))
    for a in axes_spellings(spec):
        k = {q: v for q, v in kw.items() if q != key}
        if a != "omit":
            k[key] = a
        judge("axes", f"{key} spelt {a}", lambda: read(cls(x, w, **k)))
    judge("keyword", "keyword arguments", lambda: read(cls(data=x, wavelet=w, **kw)))
    judge("level", f"maxlevel {lev} spelt out", lambda: read(cls(x, w, **dict(kw, maxlevel=lev))))
    if spec["maxlevel"] is None:
        k = {q: v for q, v in kw.items() if q != "maxlevel"}
        judge("level", "maxlevel omitted", lambda: read(cls(x, w, **k)))
    k = {q: v for q, v in kw.items() if q != "maxlevel"}
    judge("constructor", "data passed to transform", lambda: read(
        cls(None, w, **k).transform(x, lev)))
    judge("constructor", "data passed to transform by keyword", lambda: read(
        cls(None, w, **k).transform(data=x, maxlevel=lev)))
    judge("constructor", "tree used before", lambda: read(
        cls(x * 0 + 1, w, **k).transform(x, lev)))
    if spec["mode"] == "reflect":
        k = {q: v for q, v in kw.items() if q != "mode"}
        judge("default", "mode omitted", lambda: read(cls(x, w, **k)))
    if nd == 2 and not spec["sep"]:
        k = {q: v for q, v in kw.items() if q != "separable"}
        judge("default", "separable omitted", lambda: read(cls(x, w, **k)))
    k = {q: v for q, v in kw.items() if q != "orthogonalization"}
    judge("alias", "deprecated argument boundary_orthogonalization", lambda: read(deprecated(
        ctx, name, cls, (x, w), dict(k, boundary_orthogonalization=spec["orth"]))))
    conflict(ctx, name, lambda: cls(x, w, **k, orthogonalization=spec["orth"],
                                    boundary_orthogonalization=spec["orth"]))
    if spec["orth"] == "qr":
        judge("default", "orthogonalization omitted", lambda: read(cls(x, w, **k)))
    if cls.get_level(2) != cls.get_level(2, "freq") or cls.get_level(2) != cls.get_level(
            2, order="freq"):
        ctx.fail("default", "get_level: the default order is not freq")


def cwt(ctx, spec, name):
    x = gen.tensor(spec).detach()
    w = spec["wav"]
    sc = np.array(spec["scales"], dtype=np.float64)
    res = ptwt.cwt(x, sc, w)
    freqs = np.asarray(res[1], dtype=np.float64)

    def call(label, kind, fn):
        out, fr = fn()
        U.compare(ctx, (out,), (res[0],), f"{name}: {label}", kind, 1e-9)
        fr = np.asarray(fr, dtype=np.float64)
        if fr.shape != freqs.shape or not np.allclose(fr, freqs, rtol=1e-9, atol=1e-12):
            ctx.fail(kind, f"{name}: {label}: frequencies {fr} instead of {freqs}")
        ctx.judged(kind)

    call("scales as float64 tensor", "scales", lambda: ptwt.cwt(x, torch.tensor(sc), w))
    call("pywt object", "wavelet", lambda: ptwt.cwt(x, sc, pywt.ContinuousWavelet(w)))
    call("defaults spelt out", "default", lambda: ptwt.cwt(x, sc, w, 1.0, 12))
    call("keywords", "keyword", lambda: ptwt.cwt(data=x, scales=sc, wavelet=w,
                                                 sampling_period=1.0, precision=12))
    out, fr = ptwt.cwt(x, sc, w, sampling_period=0.25)
    U.compare(ctx, (out,), (res[0],), f"{name}: sampling period 0.25", "default", 1e-9)
    if not np.allclose(np.asarray(fr) * 0.25, freqs, rtol=1e-9, atol=1e-12):
        ctx.fail("default", f"{name}: frequencies do not scale with the sampling period")
    _ = cases
