"""C13: packet node orders enumerate the tree; frequency order is order by frequency."""

import functools
from itertools import product

import numpy as np
import pywt
import torch

import ptwt
from mon import gen, hooks, oracle

COUNT = {"quick": 900, "thorough": 20000}
RULE = ("get_level lists for all levels (1d up to 14, 2d up to 7) against the Gray code and pywt's "
        "tree, random histories of such calls on classes and trees whose lists the caller edits, "
        "Haar packet bases whose i-th function in frequency order must have i sign changes, "
        "and random pure tones whose energy must peak in the node of their band; non-trivial = a "
        "list, basis or spectrum was judged; distinct by kind and parameters")
ASSUMPTIONS = ["the filters used for the tone test (at least 16 taps) separate the centres of "
               "neighbouring bands"]
REQUIRED = ["order", "history", "sequency1", "sequency2", "tone1", "tone2", "bad-order"]
MIN_JUDGED = 300
TONE = ["db16", "db20", "sym16", "sym20", "coif5", "db12", "coif4"]


def setup(ctx):
    hooks.install(ctx, {})


def corner_cases(tier):
    out = [{"kind": "order", "nd": 1, "level": n} for n in range(0, 15)]
    out += [{"kind": "order", "nd": 2, "level": n} for n in range(0, 8)]
    for mode in gen.MODES + ["boundary"]:
        for level in range(1, 7):
            out.append({"kind": "seq", "nd": 1, "level": level, "mode": mode, "batch": 0})
        for level in range(1, 4):
            if mode != "boundary" or level < 3:
                out.append({"kind": "seq", "nd": 2, "level": level, "mode": mode, "batch": 0})
    out += [{"kind": "bad", "nd": nd, "order": o} for nd in (1, 2)
            for o in ("frequency", "", "nat", "Freq", None)]
    return out


def generate(rng, idx, tier):
    nd = 1 + (idx % 3 == 0)
    if idx % 5 == 0:
        return {"kind": "seq", "nd": nd, "level": rng.randrange(1, 6 if nd == 1 else 3),
                "mode": rng.choice(gen.MODES), "batch": rng.choice([0, 1])}
    if idx % 5 == 1:
        top = 11 if nd == 1 else 6
        return {"kind": "history", "nd": nd, "ds": idx,
                "calls": [[rng.choice(["static", "tree", "older"]), rng.randrange(top),
                           rng.choice(["freq", "natural", None, "bad"]), rng.randrange(4)]
                          for _ in range(12)]}
    level = rng.randrange(1, 5 if nd == 1 else 3)
    return {"kind": "tone", "nd": nd, "level": level, "wav": rng.choice(TONE),
            "mode": rng.choice(["periodic", "symmetric", "reflect"]),
            "band": [rng.randrange(2 ** level) for _ in range(nd)],
            "pos": [rng.uniform(0.3, 0.7) for _ in range(nd)],
            "phase": [rng.uniform(0, 6.28) for _ in range(nd)],
            "n": [rng.choice([512, 600, 701]) if nd == 1 else rng.choice([160, 192, 201])
                  for _ in range(nd)], "batch": rng.choice([0, 1])}


def gray(level, letters):
    out = []
    for i in range(2 ** level):
        g = i ^ (i >> 1)
        out.append("".join(letters[(g >> (level - 1 - b)) & 1] for b in range(level)))
    return out


def sign_changes(v):
    v = v[np.abs(v) > 1e-9]
    return int((np.sign(v[1:]) != np.sign(v[:-1])).sum())


def case(ctx, spec):
    nd = spec["nd"]
    cls = ptwt.WaveletPacket if nd == 1 else ptwt.WaveletPacket2D
    if spec["kind"] == "bad":
        try:
            r = cls.get_level(2, spec["order"])
        except ValueError:
            ctx.judged("bad-order")
            return
        ctx.fail("bad-order", f"get_level(2, {spec['order']!r}) returned {r}")
    if spec["kind"] == "history":
        return history(ctx, spec, cls)
    if spec["kind"] == "order":
        return order(ctx, spec, cls)
    return seq(ctx, spec, cls) if spec["kind"] == "seq" else tone(ctx, spec, cls)


def order(ctx, spec, cls):
    level, nd = spec["level"], spec["nd"]
    letters = "ad" if nd == 1 else "ahvd"
    nat = cls.get_level(level, "natural")
    want = ["".join(p) for p in product(letters, repeat=level)]
    if list(nat) != want:
        ctx.fail("natural", f"{cls.__name__}.get_level({level}, natural) = {nat[:8]}..")
    got = cls.get_level(level, "freq")
    if list(cls.get_level(level)) != list(got):
        ctx.fail("default", f"{cls.__name__}.get_level({level}) is not the frequency order")
    if nd == 1:
        if list(got) != gray(level, "ad"):
            ctx.fail("freq", f"get_level({level}, freq) = {got[:8]}.. is no Gray code")
    else:
        g = gray(level, "lh")
        pair = {"ll": "a", "hl": "h", "lh": "v", "hh": "d"}
        ref = [["".join(pair[r + c] for r, c in zip(row, col)) for col in g] for row in g]
        if [list(r) for r in got] != ref:
            ctx.fail("freq", f"WaveletPacket2D.get_level({level}, freq) = {got[:2]}..")
        if list(cls.get_freq_order(level)) != list(got) or \
                list(cls.get_natural_order(level)) != list(nat):
            ctx.fail("static", "get_freq_order / get_natural_order differ from get_level")
    # the lists belong to the caller
    if nd == 1 and level:
        got.append("x")
        if "x" in cls.get_level(level, "freq"):
            ctx.fail("aliasing", "get_level hands out a shared list")
    if 0 < level <= (8 if nd == 1 else 4):
        n = 2 ** level
        if nd == 1:
            t = pywt.WaveletPacket(np.zeros(n), "haar", maxlevel=level)
            ref = {o: [x.path for x in t.get_level(level, o)] for o in ("freq", "natural")}
            got = cls.get_level(level, "freq")
        else:
            t = pywt.WaveletPacket2D(np.zeros((n, n)), "haar", maxlevel=level)
            ref = {"natural": [x.path for x in t.get_level(level, "natural")],
                   "freq": [[x.path for x in r] for r in t.get_level(level, "freq")]}
        if list(nat) != ref["natural"] or [r if nd == 1 else list(r) for r in got] != ref["freq"]:
            ctx.fail("pywt", f"{cls.__name__} level {level}: order differs from pywt's")
    ctx.judged("order")


@functools.lru_cache(maxsize=None)
def expected(nd, level, order):
    if order == "natural":
        return ["".join(p) for p in product("ad" if nd == 1 else "ahvd", repeat=level)]
    if nd == 1:
        return gray(level, "ad")
    g = gray(level, "lh")
    pair = {"ll": "a", "hl": "h", "lh": "v", "hh": "d"}
    return [["".join(pair[r + c] for r, c in zip(row, col)) for col in g] for row in g]


def plain(value):
    return [list(v) if not isinstance(v, str) else v for v in value]


def history(ctx, spec, cls):
    """Calls in any order, and whatever the caller did to the lists of earlier ones."""
    nd = spec["nd"]
    trees = []
    data = torch.ones((64,) if nd == 1 else (32, 32), dtype=torch.float64)
    done = []
    for source, level, order, edit in spec["calls"]:
        if source == "static":
            obj = cls
        elif source == "tree" or not trees:
            obj = cls(data, "haar", mode="zero", maxlevel=level % 4)
            trees.append(obj)
        else:
            obj = trees[0]
            if edit == 3:
                obj.transform(data, level % 4)
            obj["a" if obj.maxlevel else ""]
        done.append((source, level, order))
        if order == "bad":
            try:
                obj.get_level(level, "frequency")
            except ValueError:
                continue
            ctx.fail("bad-order", f"{cls.__name__}: an unknown order is accepted after {done}")
        got = obj.get_level(level) if order is None else obj.get_level(level, order)
        if plain(got) != expected(nd, level, order or "freq"):
            ctx.fail("history", f"{cls.__name__}: get_level({level}, {order}) is wrong after "
                                f"{done[:-1]}")
        ctx.judged("history")
        # the lists belong to the caller
        rows = [got] + [row for row in got if isinstance(row, list)]
        for row in rows:
            if edit == 0:
                row.reverse()
            elif edit == 1:
                row.append("x")
            elif edit == 2:
                row.clear()


def seq(ctx, spec, cls):
    level, nd = spec["level"], spec["nd"]
    n = 2 ** level
    if nd == 1:
        tree = cls(torch.eye(n, dtype=torch.float64), "haar", mode=spec["mode"], maxlevel=level)
        for i, p in enumerate(tree.get_level(level, "freq")):
            v = oracle.to_np(tree[p]).reshape(-1)
            if v.size != n or sign_changes(v) != i or np.abs(np.abs(v) - n ** -0.5).max() > 1e-9:
                ctx.fail("sequency", f"haar {spec['mode']} level {level}: node {p} at place {i} "
                                     f"has {sign_changes(v)} sign changes")
            ctx.judged("sequency1")
        return
    eye = torch.eye(n * n, dtype=torch.float64).reshape(n * n, n, n)
    tree = cls(eye, "haar", mode=spec["mode"], maxlevel=level)
    for r, row in enumerate(tree.get_level(level, "freq")):
        for c, p in enumerate(row):
            v = oracle.to_np(tree[p]).reshape(n, n)
            sr = {sign_changes(v[:, k]) for k in range(n)}
            sc = {sign_changes(v[k]) for k in range(n)}
            if sr != {r} or sc != {c}:
                ctx.fail("sequency", f"haar {spec['mode']} level {level}: node {p} at ({r}, {c}) "
                                     f"has {sr} and {sc} sign changes along the two axes")
            ctx.judged("sequency2")


def tone(ctx, spec, cls):
    level, nd = spec["level"], spec["nd"]
    waves = []
    for b, pos, ph, n in zip(spec["band"], spec["pos"], spec["phase"], spec["n"]):
        f = (b + pos) / 2 ** level * np.pi
        waves.append(np.cos(f * np.arange(n) + ph))
    x = waves[0] if nd == 1 else np.multiply.outer(*waves)
    t = torch.from_numpy(x)
    if spec["batch"]:
        t = torch.stack([t, 2 * t])
    tree = cls(t, spec["wav"], mode=spec["mode"], maxlevel=level)
    lev = tree.get_level(level, "freq")

    def energy(p):
        v = oracle.to_np(tree[p])
        m = pywt.Wavelet(spec["wav"]).dec_len
        s = slice(m, -m) if v.shape[-1] > 3 * m else slice(None)
        return float((v[..., s] ** 2).mean() if nd == 1 else (v ** 2).mean())

    if nd == 1:
        e = [energy(p) for p in lev]
        got = [int(np.argmax(e))]
    else:
        e = np.array([[energy(p) for p in row] for row in lev])
        got = [int(v) for v in np.unravel_index(e.argmax(), e.shape)]
    if got != spec["band"]:
        ctx.fail("tone", f"{spec['wav']} {spec['mode']} level {level}: a tone in band "
                         f"{spec['band']} (offset {spec['pos']}) peaks in band {got}")
    ctx.judged("tone1" if nd == 1 else "tone2")
