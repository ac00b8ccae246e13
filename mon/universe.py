"""All public transforms as uniform programs: ``make(spec)`` gives ``run(tree)``.

``tree`` is the input of the operation (a tensor or a coefficient container) and
the result is its output container.  Every program is linear in its input.
"""

from __future__ import annotations

import gc
import locale
import logging
import os
import random
import sys
import warnings
from itertools import product

import numpy as np
import torch
from torch.utils import _pytree as pytree

import ptwt

from . import cases, gen, matrix, packetmodel

CONV = ["wavedec", "wavedec2", "wavedec3", "fswavedec2", "fswavedec3"]
REC = [cases.INVERSE[o] for o in CONV]
MAT = ["m1", "m2s", "m2n", "m3"]
IMAT = ["im1", "im2s", "im2n", "im3"]
ALL = CONV + REC + ["swt", "iswt", "cwt"] + MAT + IMAT + ["wp1", "wp2", "rp1", "rp2"]
FORWARD = CONV + ["swt", "cwt"] + MAT + ["wp1", "wp2"]
STATELESS = CONV + REC + ["swt", "iswt", "cwt"]
OBJECTS = MAT + IMAT
# one-level analysis of these changes nothing about the number of bands
ND = {"wavedec": 1, "wavedec2": 2, "wavedec3": 3, "fswavedec2": 2, "fswavedec3": 3,
      "waverec": 1, "waverec2": 2, "waverec3": 3, "fswaverec2": 2, "fswaverec3": 3,
      "swt": 1, "iswt": 1, "cwt": 1, "m1": 1, "m2s": 2, "m2n": 2, "m3": 3, "im1": 1,
      "im2s": 2, "im2n": 2, "im3": 3, "wp1": 1, "wp2": 2, "rp1": 1, "rp2": 2}
FWD_OF = {v: k for k, v in cases.INVERSE.items()}
CWT_REAL = ["mexh", "gaus1", "gaus4", "morl", "gaus8"]
CWT_CPLX = ["cgau2", "shan1-1.5", "cmor1.5-1.0", "fbsp2-1.5-1.0"]


# part of the programs with many levels
DEEP = 0.06


def generate(rng, idx, u, tier="quick", axes=True, dtypes=("f64",), batch=None,
             layouts=True, wforms=True, cplx=True):
    """A random spec for program ``u`` or None."""
    nd = ND[u]
    for _ in range(100):
        spec = {"u": u, "ds": rng.randrange(2**31), "dtype": rng.choice(dtypes),
                "layout": rng.choice(["contig", "contig", "transposed", "strided", "offset",
                                      "fortran"]) if layouts else "contig",
                "kind": rng.choice(["normal", "uniform", "ints"]),
                "wform": rng.choice(cases.FORMS) if wforms and rng.random() < 0.3 else "str",
                "mode": gen.MODES[(idx + rng.randrange(5)) % 5], "level": None, "axes": None}
        bd = rng.choice([0, 1, 1, 2, 3]) if batch is None else batch
        use_axes = axes and rng.random() < 0.5
        # now and then more levels than the sizes of the other programs allow
        deep = rng.random() < DEEP
        if u in CONV or u in REC:
            spec["op"] = FWD_OF.get(u, u)
            spec["wav"] = gen.pick_wavelet(rng, maxlen=4 if deep else {1: 24, 2: 14, 3: 8}[nd])
            fl = gen.flen(spec["wav"])
            top = {1: 70, 2: 26, 3: 14}[nd]
            sizes = [cases.size_for(rng, fl, top, spec["mode"]) for _ in range(nd)]
            level = rng.choice([1, 1, 2, 3] if nd < 3 else [1, 1, 2])
            if deep:
                level = rng.randrange(4, {1: 11, 2: 6, 3: 5}[nd])
                sizes = [rng.randrange(2 ** level, 2 ** level * 3) if n == 0 or nd < 3
                         else rng.randrange(2 ** level, 2 ** level + 9) for n in range(nd)]
                bd = min(bd, 1)
            while level and not all(gen.pad_ok(n, fl, spec["mode"], level) for n in sizes):
                level -= 1
            if not level:
                continue
            spec["level"] = level
        elif u in ("swt", "iswt"):
            spec["wav"] = gen.pick_wavelet(rng, maxlen=24)
            spec["level"] = rng.randrange(4, 10) if deep else rng.choice([1, 2, 3])
            sizes = [2 ** spec["level"] * rng.randrange(1, 3 if deep else 8)]
            bd = min(bd, 1) if deep else bd
        elif u == "cwt":
            spec["wav"] = rng.choice(CWT_REAL + (CWT_CPLX if cplx else []))
            spec["wform"] = rng.choice(["str", "obj"]) if wforms else "str"
            spec["scales"] = [rng.choice([1.5, 2, 3, 5.25, 8]) for _ in range(rng.choice([1, 2, 3]))]
            sizes = [rng.randrange(4, 50)]
            use_axes = False
        elif u in MAT or u in IMAT:
            cls = u.lstrip("i")
            spec["cls"] = cls
            spec["orth"] = rng.choice(["qr", "gramschmidt"])
            spec["wav"] = gen.pick_wavelet(rng, "orth", {"m1": 8, "m2s": 6, "m2n": 4,
                                                         "m3": 4}[cls])
            fl = gen.flen(spec["wav"])
            top = {"m1": 40, "m2s": 20, "m2n": 10, "m3": 8}[cls]
            sizes = [rng.randrange(fl, max(fl + 2, top) + 1) for _ in range(nd)]
            spec["level"] = rng.choice([None, 1, 1, 2, 3])
            if deep and cls != "m2n":
                spec["wav"] = rng.choice(["haar", "haar", "db2"])
                spec["level"] = rng.choice([None, 4, 5, 6] if nd == 1 else [None, 4] if nd == 2
                                           else [None, 3])
                low, high = {1: (64, 300), 2: (24, 60), 3: (8, 18)}[nd]
                sizes = [rng.randrange(low, high) for _ in range(nd)]
                bd = min(bd, 1)
        else:
            sizes = None
            p = packetmodel.generate(rng, rng.randrange(6), "quick", nd, False)
            if p is None:
                continue
            p.pop("ops")
            p.update(u=u, dtype=spec["dtype"], level=None, kind=spec["kind"],
                     layout=spec["layout"])
            if p["mode"] == "boundary":
                p["dtype"] = "f64"
            if not wforms:
                p["wform"] = "str"
            lev = packetmodel.level_of(p)
            if lev > (4 if nd == 1 else 2) + deep or len(p["shape"]) > nd + 3:
                continue
            if not axes or batch is not None:
                sz = packetmodel.sizes_of(p)
                p["shape"], p["axes"] = cases.shape_with_axes(
                    rng, len(p["shape"]) - nd if batch is None else batch, sz, use_axes)
            return p
        dims = None
        if batch is None and rng.random() < 0.02:
            dims = cases.wide_batch(rng, [4, 5], 4000 // int(np.prod(sizes)))
            bd = len(dims)
        spec["shape"], spec["axes"] = cases.shape_with_axes(rng, bd, sizes, use_axes, dims)
        if u in MAT or u in IMAT:
            if not matrix.structure(spec)[0]:
                continue
        return spec
    return None


def make(spec):
    """A fresh program object for the spec: the callable run(tree)."""
    u = spec["u"]
    axes = spec.get("axes")
    dt = cases.dtype_of(spec)
    if u == "cwt":
        import pywt

        w = spec["wav"] if spec["wform"] == "str" else pywt.ContinuousWavelet(spec["wav"])
        scales = np.array(spec["scales"])
        return lambda x: ptwt.cwt(x, scales, w)[0]
    w = gen.wavelet(spec, dt)
    kw = {}
    if axes is not None:
        kw = {"axis": axes[0]} if ND[u] == 1 else {"axes": tuple(axes)}
    if u in CONV:
        fn = getattr(ptwt, u)
        return lambda x: fn(x, w, mode=spec["mode"], level=spec["level"], **kw)
    if u in REC:
        fn = getattr(ptwt, u)
        return lambda c: fn(c, w, **kw)
    if u == "swt":
        return lambda x: ptwt.swt(x, w, level=spec["level"], **kw)
    if u == "iswt":
        return lambda c: ptwt.iswt(c, w, **kw)
    if u in MAT:
        return matrix.forward(spec, w)
    if u in IMAT:
        return matrix.inverse(spec, w)
    if u in ("wp1", "wp2"):
        def run(x):
            tree = packetmodel.make(dict(spec), x)
            lev = packetmodel.level_of(spec)
            out = {}
            for n in range(1, lev + 1):
                for p in product(packetmodel.LETTERS[spec["nd"]], repeat=n):
                    out["".join(p)] = tree["".join(p)]
            return out

        return run

    def rec(leaves):
        tree = packetmodel.make(dict(spec), torch.zeros(spec["shape"], dtype=dt))
        for k, v in leaves.items():
            # computes the inner nodes, whose sizes reconstruct() needs
            tree[k]
            tree[k] = v
        return tree.reconstruct()[""]

    return rec


def build_input(spec, forward=None):
    """The input container of the program (random values of the right shapes)."""
    u = spec["u"]
    if u in FORWARD:
        return gen.tensor(spec)
    if u in REC:
        return cases.build_coeffs(spec)
    fspec = dict(spec, u={"iswt": "swt", "im1": "m1", "im2s": "m2s", "im2n": "m2n",
                          "im3": "m3", "rp1": "wp1", "rp2": "wp2"}[u])
    out = make(fspec)(gen.tensor(dict(fspec, layout="contig")))
    if u in ("rp1", "rp2"):
        lev = packetmodel.level_of(spec)
        out = {k: v for k, v in out.items() if len(k) == lev}
    out = cases.perturb(out, spec["ds"] + 1)
    if spec.get("layout", "contig") != "contig":
        out = pytree.tree_map(lambda t: gen.layout_tensor(t, spec["layout"]), out)
    return out


IMPORTED = {"filters", "environ", "handlers", "random", "numpy random"}


def globals_state(rng=True):
    """Settings and random states of the process that no call may change."""
    out = {
        "modules": len(sys.modules),
        "default dtype": torch.get_default_dtype(), "threads": torch.get_num_threads(),
        "grad mode": torch.is_grad_enabled(), "inference": torch.is_inference_mode_enabled(),
        "deterministic": torch.are_deterministic_algorithms_enabled(),
        "autocast": torch.is_autocast_enabled(), "anomaly": torch.is_anomaly_enabled(),
        "default device": torch.get_default_device().type,
        "matmul precision": torch.get_float32_matmul_precision(),
        "warn always": torch.is_warn_always_enabled(),
        "sparse checks": torch.sparse.check_sparse_tensor_invariants.is_enabled(),
        "mkldnn": torch.backends.mkldnn.enabled, "cudnn": torch.backends.cudnn.enabled,
        "cudnn benchmark": torch.backends.cudnn.benchmark,
        "multithreaded backward": torch.autograd.is_multithreading_enabled(),
        "numpy errors": str(np.geterr()), "numpy buffer": np.getbufsize(),
        "print options": str(np.get_printoptions()),
        "filters": tuple(map(repr, warnings.filters)), "showwarning": warnings.showwarning,
        "recursion": sys.getrecursionlimit(), "gc": gc.isenabled(), "cwd": os.getcwd(),
        "environ": hash(tuple(sorted(os.environ.items()))),
        "handlers": (logging.root.level, len(logging.root.handlers), logging.root.manager.disable),
        "path": tuple(sys.path), "locale": locale.setlocale(locale.LC_ALL),
        "streams": (id(sys.stdout), id(sys.stderr)),
    }
    if rng:
        out["torch random"] = torch.get_rng_state().numpy().tobytes()
        out["numpy random"] = (repr(np.random.get_state()[1][:5]), np.random.get_state()[2])
        out["random"] = hash(random.getstate())
    return out


def globals_diff(before):
    """Names of the settings that differ from the recorded ones.

    What the first import of a module may change is left out if there was one.
    """
    now = globals_state("random" in before)
    out = [k for k in before if now[k] != before[k] and k != "modules"]
    if now["modules"] != before["modules"]:
        out = [k for k in out if k not in IMPORTED]
    return out


def leaves(tree):
    return pytree.tree_flatten(tree)[0]


def same_structure(a, b):
    return pytree.tree_flatten(a)[1] == pytree.tree_flatten(b)[1]


def tmap(fn, tree):
    return pytree.tree_map(fn, tree)


def name_of(spec):
    keys = ["wav", "wform", "mode", "orth", "sep", "shape", "axes", "level", "maxlevel",
            "dtype", "layout", "scales"]
    return f"{spec['u']}(" + ", ".join(f"{k}={spec[k]}" for k in keys
                                       if spec.get(k) is not None) + ")"


def compare(ctx, got, ref, name, mech, tol=None, exact=False):
    """Fail unless both containers are equal (bitwise or up to tol * scale)."""
    if not same_structure(got, ref):
        ctx.fail(mech, f"{name}: container differs: {pytree.tree_flatten(got)[1]} versus "
                       f"{pytree.tree_flatten(ref)[1]}")
    la, lb = leaves(got), leaves(ref)
    scale = max([1e-300] + [float(t.detach().abs().nan_to_num(0, 0, 0).max())
                            for t in lb if t.numel()])
    for i, (a, b) in enumerate(zip(la, lb)):
        if a.shape != b.shape or a.dtype != b.dtype:
            ctx.fail(mech, f"{name}: tensor {i} is {tuple(a.shape)} {a.dtype} instead of "
                           f"{tuple(b.shape)} {b.dtype}")
        if a.numel() == 0:
            continue
        a, b = a.detach(), b.detach()
        if exact:
            ok = torch.equal(a, b) or bool(((a == b) | (a.isnan() & b.isnan())).all())
            err = 0 if ok else float((a - b).abs().nan_to_num(float("inf")).max())
        else:
            t = tol
            if t is None:
                t = 1e-11 if a.dtype in (torch.float64, torch.complex128) else 1e-4
            bad = a.isnan() != b.isnan()
            diff = (a - b).abs()
            diff = torch.where(a.isnan() & b.isnan(), torch.zeros_like(diff), diff)
            err = float("inf") if bool(bad.any()) else float(diff.max())
            ok = err <= t * scale
        if not ok:
            ctx.fail(mech, f"{name}: tensor {i} of shape {tuple(a.shape)} differs by {err:.3e} "
                           f"(scale {scale:.2e})")
