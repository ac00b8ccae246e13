"""Programs that are run in several interpreters: calls, node orders, losses, rejections."""

from __future__ import annotations

import random
import warnings
from itertools import product

import torch

import ptwt

from . import gen, packetmodel, universe as U


def run(job):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return {"call": call, "orders": orders, "tree": tree, "reject": reject,
                "sparse": sparse}[job["what"]](job)


def call(job):
    return U.make(job["spec"])(job["input"])


def orders(job):
    out = []
    for lev in range(4):
        for cls in (ptwt.WaveletPacket, ptwt.WaveletPacket2D):
            for name in ("get_level", "get_natural_order", "get_freq_order"):
                if hasattr(cls, name):
                    out.append(repr(getattr(cls, name)(lev)))
    return {"orders": [torch.tensor(list("|".join(out).encode()), dtype=torch.uint8)]}


def tree(job):
    """Node access, edit and reconstruction; the order of the nodes in the mapping counts."""
    spec = job["spec"]
    rng = random.Random(job["seed"])
    t = packetmodel.make(dict(spec), job["input"].clone())
    lev = packetmodel.level_of(spec)
    letters = packetmodel.LETTERS[spec["nd"]]
    leaves = ["".join(p) for p in product(letters, repeat=lev)]
    for p in rng.sample(leaves, min(3, len(leaves))):
        t[p]
    first = list(t.keys())
    t.initialize(leaves)
    if lev:
        t[leaves[-1]] = t[leaves[-1]] * 2
    t.reconstruct()
    keys = "|".join(first + list(t.keys()))
    return {"keys": torch.tensor(list(keys.encode()), dtype=torch.uint8),
            **{"n" + k: v.clone() for k, v in t.data.items()}}


def sparse(job):
    f, n = job["filter"], job["n"]
    m = ptwt.sparse_math if hasattr(ptwt, "sparse_math") else __import__(
        "ptwt.sparse_math", fromlist=["x"])
    a = m.construct_conv_matrix(f, n, mode=job["mode"]).to_dense()
    b = m.construct_strided_conv_matrix(f, n, 2, mode=job["mode"]).to_dense()
    return [a, b]


def reject(job):
    """Malformed calls: what is raised (if anything) must not depend on the interpreter."""
    kind, w, x = job["kind"], job["wav"], job["input"]
    if kind == "waverec-size":
        c = ptwt.wavedec(x, w, level=2, mode="zero")
        c[2] = torch.cat([c[2], c[2], c[2]], -1)
        return ptwt.waverec(c, w)
    if kind == "waverec2-size":
        c = ptwt.wavedec2(x, w, level=2, mode="zero")
        bad = tuple(torch.cat([t, t, t], -1) for t in c[2])
        return ptwt.waverec2((c[0], c[1], bad), w)
    if kind == "waverec3-size":
        c = ptwt.wavedec3(x[None], w, level=1, mode="zero")
        bad = dict(c[1], ddd=torch.cat([c[1]["ddd"]] * 2, -1))
        return ptwt.waverec3((c[0], bad), w)
    if kind == "fswaverec2-size":
        c = ptwt.fswavedec2(x, w, level=1, mode="zero")
        bad = dict(c[1], dd=torch.cat([c[1]["dd"]] * 2, -1))
        return ptwt.fswaverec2((c[0], bad), w)
    if kind == "matrix-size":
        c = ptwt.MatrixWavedec(w, 1)(x)
        return ptwt.MatrixWaverec(w)([c[0], torch.cat([c[1], c[1]], -1)])
    if kind == "packet-leaf-size":
        t = ptwt.WaveletPacket(x, w, mode="zero", maxlevel=2)
        t.initialize(["aa", "ad", "da", "dd"])
        for k in ("aa", "ad", "da", "dd"):
            t[k] = torch.cat([t[k]] * 3, -1) if job["grow"] else t[k][..., :1]
        t.reconstruct()
        return [t[""]]
    if kind == "packet2-leaf-size":
        t = ptwt.WaveletPacket2D(x, w, mode="zero", maxlevel=2)
        t.initialize(["".join(p) for p in product("ahvd", repeat=2)])
        for k in ("".join(p) for p in product("ahvd", repeat=2)):
            t[k] = torch.cat([t[k]] * 3, job["dim"]) if job["grow"] else t[k].narrow(
                job["dim"], 0, 1)
        t.reconstruct()
        return [t[""]]
    if kind == "packet-key":
        return [ptwt.WaveletPacket(x, w, mode="zero", maxlevel=2)["ax"]]
    if kind == "packet-level":
        return [ptwt.WaveletPacket2D(x, w, mode="zero", maxlevel=1)["aa"]]
    if kind == "axes":
        return ptwt.wavedec2(x, w, axes=(-1, -1))
    if kind == "dtype":
        return ptwt.wavedec(x.to(torch.int32), w)
    if kind == "mode":
        return ptwt.wavedec(x, w, mode="unknown")
    if kind == "order":
        return [torch.tensor(len(ptwt.WaveletPacket.get_level(2, "random")))]
    if kind == "lengths":
        return ptwt.MatrixWavedec(gen.wavelet({"wav": w, "wform": "str"}), level=-1)(x)
    if kind == "swt-length":
        return ptwt.iswt([x, x[..., :-1]], w)
    raise NotImplementedError(kind)


REJECTS = ["waverec-size", "waverec2-size", "waverec3-size", "fswaverec2-size", "matrix-size",
           "packet-leaf-size", "packet2-leaf-size", "packet-key", "packet-level", "axes", "dtype",
           "mode", "order", "lengths", "swt-length"]
