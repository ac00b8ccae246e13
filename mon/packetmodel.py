"""Model of the lazy wavelet packet trees and the state machine driving both."""

from __future__ import annotations

import random
from itertools import product

import numpy as np
import pywt
import torch

import ptwt

from . import cases, gen, hooks, matrix, oracle

LETTERS = {1: "ad", 2: "ahvd"}


class Model:
    """Reference tree: {path: float64 array}; expansion by pywt or fresh matrices."""

    def __init__(self, spec, swap=False):
        self.spec = spec
        self.nd = spec["nd"]
        self.swap = swap
        self.w = gen.oracle_wavelet(gen.wavelet(spec, torch.float64))
        self.axes = spec["axes"] or list(range(-self.nd, 0))
        self.nodes = {}
        self.scale = 0.0

    def transform(self, x):
        self.nodes = {"": x}
        self.scale = float(np.abs(x).max()) if x.size else 0.0

    def expand(self, path):
        x = self.get(path)
        spec = self.spec
        if spec["mode"] == "boundary":
            cls = "m1" if self.nd == 1 else ("m2s" if spec["sep"] else "m2n")
            s = {"cls": cls, "orth": spec["orth"], "wav": spec["wav"], "axes": spec["axes"],
                 "level": 1, "dtype": "f64"}
            with hooks.muted():
                res = matrix.forward(s)(torch.from_numpy(np.array(x)))
            res = [oracle.to_np(t) for _, t in matrix.flat(res)]
        elif self.nd == 1:
            res = oracle.quiet(pywt.dwt, x, self.w, mode=spec["mode"], axis=self.axes[0])
        else:
            a, (h, v, d) = oracle.quiet(pywt.dwt2, x, self.w, mode=spec["mode"],
                                        axes=tuple(self.axes))
            res = (a, v, h, d) if self.swap else (a, h, v, d)
        for c, r in zip(LETTERS[self.nd], res):
            self.nodes[path + c] = np.asarray(r)

    def get(self, path):
        if path not in self.nodes:
            self.expand(path[:-1])
        return self.nodes[path]

    def set(self, path, x):
        self.nodes[path] = x
        self.scale = max(self.scale, float(np.abs(x).max()) if x.size else 0.0)

    def complete(self, maxlevel):
        return all("".join(p) in self.nodes
                   for p in product(LETTERS[self.nd], repeat=maxlevel))

    def reconstruct(self, maxlevel):
        spec = self.spec
        for level in reversed(range(maxlevel)):
            for p in product(LETTERS[self.nd], repeat=level):
                path = "".join(p)
                ch = [self.nodes[path + c] for c in LETTERS[self.nd]]
                if spec["mode"] == "boundary":
                    cls = "m1" if self.nd == 1 else ("m2s" if spec["sep"] else "m2n")
                    s = {"cls": cls, "orth": spec["orth"], "wav": spec["wav"],
                         "axes": spec["axes"], "dtype": "f64"}
                    t = [torch.from_numpy(np.array(c)) for c in ch]
                    co = t if self.nd == 1 else (t[0], ptwt.WaveletDetailTuple2d(*t[1:]))
                    with hooks.muted():
                        rec = oracle.to_np(matrix.inverse(s)(co))
                elif self.nd == 1:
                    rec = oracle.quiet(pywt.idwt, ch[0], ch[1], self.w, mode="zero",
                                       axis=self.axes[0])
                else:
                    a, h, v, d = ch
                    if self.swap:
                        h, v = v, h
                    rec = oracle.quiet(pywt.idwt2, (a, (h, v, d)), self.w, mode="zero",
                                       axes=tuple(self.axes))
                if level > 0:
                    old = self.nodes[path]
                    rec = rec[tuple(slice(0, n) for n in old.shape)]
                self.nodes[path] = rec


def make(spec, data):
    kw = {"mode": spec["mode"], "maxlevel": spec["maxlevel"]}
    if spec["mode"] == "boundary":
        kw["orthogonalization"] = spec["orth"]
    w = gen.wavelet(spec, cases.dtype_of(spec))
    if spec["nd"] == 1:
        if spec["axes"]:
            kw["axis"] = spec["axes"][0]
        return ptwt.WaveletPacket(data, w, **kw)
    if spec["axes"]:
        kw["axes"] = tuple(spec["axes"])
    return ptwt.WaveletPacket2D(data, w, separable=spec["sep"], **kw)


def sizes_of(spec, shape=None):
    axes = spec["axes"] or list(range(-spec["nd"], 0))
    return [(shape or spec["shape"])[a] for a in axes]


def level_of(spec, shape=None, maxlevel="spec"):
    lev = spec["maxlevel"] if maxlevel == "spec" else maxlevel
    if lev is not None:
        return lev
    return min(gen.max_level(n, gen.flen(spec["wav"])) for n in sizes_of(spec, shape))


def feasible(spec, shape=None, maxlevel="spec"):
    lev = level_of(spec, shape, maxlevel)
    fl = gen.flen(spec["wav"])
    cap = {1: (6, 14), 2: (3, 7)}[spec["nd"]][bool(spec.get("deep"))]
    if lev > cap:
        return False
    for n in sizes_of(spec, shape):
        if spec["mode"] == "boundary":
            for _ in range(lev):
                if n < fl:
                    return False
                n = (n + 1) // 2
        elif not gen.pad_ok(n, fl, spec["mode"], lev):
            return False
    return True


def generate(rng, idx, tier, nd, rec, corners=False):
    """A random tree configuration and history of operations.

    With corners also trees of level zero, and trees that get their data later.
    """
    big = rng.random() < 0.03
    for _ in range(80):
        mode = (gen.MODES + ["boundary"])[idx % 6]
        spec = {"nd": nd, "mode": mode, "orth": rng.choice(["qr", "gramschmidt"]),
                "sep": nd == 2 and rng.random() < 0.4,
                "dtype": rng.choice(["f64", "f64", "f32"]) if mode != "boundary" else "f64",
                "layout": rng.choice(gen.LAYOUTS) if rng.random() < 0.3 else "contig",
                "kind": rng.choice(["normal", "ints", "mixed", "sparse", "alternate"]),
                "wform": rng.choice(cases.FORMS) if rng.random() < 0.4 else "str",
                "ds": rng.randrange(2**31)}
        if mode == "boundary":
            cap = 6 if nd == 1 else (4 if spec["sep"] else 2)
            if nd == 2 and not spec["sep"] and rng.random() < 0.3:
                cap = 4
            spec["wav"] = gen.pick_wavelet(rng, "orth", cap) if cap > 2 else "haar"
        else:
            spec["wav"] = gen.pick_wavelet(rng, maxlen=24 if nd == 1 else 12)
        fl = gen.flen(spec["wav"])
        top = 120 if nd == 1 else (30 if mode != "boundary" or spec["sep"] else 12)
        sizes = [rng.choice([rng.randrange(max(2, fl - 1), max(fl + 2, top)), 16, 2 * fl, 4 * fl + 1])
                 for _ in range(nd)]
        sizes = [min(n, top + fl) for n in sizes]
        batch = None
        if big:
            if rng.random() < 0.5:
                sizes = [rng.randrange(top, {120: 3000, 30: 130, 12: 24}[top])
                         for _ in range(nd)]
            else:
                batch = cases.wide_batch(rng, [4, 5], 20000 // int(np.prod(sizes)))
        bd = rng.choice([0, 1, 1, 2]) if batch is None else len(batch)
        spec["shape"], spec["axes"] = cases.shape_with_axes(rng, bd, sizes, rng.random() < 0.4,
                                                            batch)
        spec["maxlevel"] = rng.choice([None, 1, 2, 3, 4] if nd == 1 else [None, 1, 2, 2])
        if big:
            spec["maxlevel"] = rng.choice([1, 2, 3, 5, 6] if nd == 1 else [1, 2, 3])
        if corners and not big and rng.random() < 0.03:
            spec["maxlevel"] = 0
        if feasible(spec) and (level_of(spec) > 0 or corners and
                               (spec["maxlevel"] == 0 or rng.random() < 0.2)):
            break
    else:
        return None
    if corners and rng.random() < 0.1:
        spec["late"] = True
    spec["ops"] = history(rng, spec, rec, corners)
    return spec


def deep_cases(nd, rec):
    """Trees far deeper than the usual ones, on which a few long paths are followed."""
    out = []
    if rec:
        sets = {1: [("haar", [1, 600], 9), ("db2", [515], 7), ("haar", [2, 64], 6)],
                2: [("haar", [37, 33], 5), ("db2", [1, 50, 52], 4)]}[nd]
    else:
        sets = {1: [("haar", [2, 4099], 12), ("db2", [3000], 9), ("haar", [70001], 14),
                    ("haar", [66001, 8], 3)],
                2: [("haar", [140, 131], 7), ("db2", [1, 90, 96], 5), ("haar", [33001, 4, 4], 2)],
                }[nd]
    for i, (wav, shape, lev) in enumerate(sets):
        for k, mode in enumerate(["zero", "symmetric", "reflect", "boundary"]):
            spec = {"nd": nd, "mode": mode, "orth": "qr", "sep": nd == 2, "dtype": "f64",
                    "layout": "contig", "kind": "normal", "wform": "str", "wav": wav,
                    "shape": shape, "axes": None, "maxlevel": lev, "deep": 1, "ds": i}
            if not feasible(spec):
                continue
            rng = random.Random(10 * i + k)
            path = [rand_path(rng, nd, lev, 1.0) for _ in range(6)]
            letters = LETTERS[nd]
            if rec:
                ops = [["all", lev], ["set", path[0], 5], ["set", path[1], 6], ["rec"],
                       ["set", path[2], 7], ["rec"]]
            else:
                ops = [["get", letters[-1] * lev], ["bad", path[0] + "a"], ["get", path[1]],
                       ["set", path[1][:lev // 2], 7], ["init", path[2:4]], ["get", path[4]],
                       ["level", min(lev, 5 - nd), "freq"], ["dump"]]
            out.append(dict(spec, ops=ops))
    return out


def rand_path(rng, nd, lev, deep=0.5):
    n = lev if rng.random() < deep else rng.randrange(0, lev + 1)
    return "".join(rng.choice(LETTERS[nd]) for _ in range(n))


def history(rng, spec, rec, corners=False):
    nd, lev = spec["nd"], level_of(spec)
    ops = []
    for _ in range(rng.randrange(3, 9)):
        r = rng.random()
        if r < 0.45:
            ops.append(["get", rand_path(rng, nd, lev)])
        elif r < 0.6:
            ops.append(["init", [rand_path(rng, nd, lev) for _ in range(rng.randrange(1, 4))]])
        elif r < 0.7:
            ops.append(["level", rng.randrange(min(1, lev), lev + 1),
                        rng.choice(["freq", "natural"])])
        elif r < 0.8:
            ops.append(["set", rand_path(rng, nd, lev), rng.randrange(2**31)])
        elif r < 0.87:
            ops.append(["bad", rng.choice(["x", "aq", rand_path(rng, nd, lev, 1.0) + "a", "A",
                                           "xa"])])
        elif r < 0.9:
            ops.append(["again", rng.random() < 0.6, rng.random() < 0.3])
        elif r < 0.96:
            shape = list(spec["shape"])
            axes = spec["axes"] or list(range(-nd, 0))
            for a in axes:
                shape[a] += rng.choice([0, 1, 2])
            ml = rng.choice([lev, max(0, lev - 1), None])
            if feasible(spec, shape, ml) and (corners or level_of(spec, shape, ml) > 0):
                ops.append(["transform", shape, ml, rng.randrange(2**31)])
                lev = level_of(spec, shape, ml)
        else:
            ops.append(["del", rand_path(rng, nd, lev, 0.8)])
        if rec and rng.random() < 0.3:
            if rng.random() < 0.85:
                ops.append(["all", lev])
            if rng.random() < 0.6:
                ops.append(["set", rand_path(rng, nd, lev, 1.0), rng.randrange(2**31)])
            ops.append(["rec"])
    if rec:
        ops += [["all", lev], ["rec"]]
    ops.append(["dump"])
    return ops


def name_of(spec):
    return f"{'WaveletPacket' if spec['nd'] == 1 else 'WaveletPacket2D'}({spec['wav']}, " \
           f"{spec['mode']}, shape {spec['shape']}, axes={spec['axes']}, " \
           f"maxlevel={spec['maxlevel']}, separable={spec['sep']}, {spec['orth']}, " \
           f"{spec['dtype']})"


def orientation(ctx, spec, data):
    """Does this separable 2d tree exchange horizontal and vertical details?"""
    if spec["nd"] == 1 or not spec["sep"] or spec["mode"] == "boundary":
        return False
    if not level_of(spec):
        shape = list(spec["shape"])
        for k in spec["axes"] or (-2, -1):
            shape[k] = 2 * gen.flen(spec["wav"])
        spec = dict(spec, shape=shape, maxlevel=1)
        data = gen.tensor(spec)
    m = Model(spec)
    m.transform(oracle.to_np(data))
    with hooks.muted():
        h = oracle.to_np(make(spec, data)["h"])
    if h.shape == m.get("h").shape and np.allclose(h, m.get("h"), rtol=1e-4,
                                                   atol=1e-5 * m.scale):
        return False
    if h.shape == m.get("v").shape and np.allclose(h, m.get("v"), rtol=1e-4,
                                                   atol=1e-5 * m.scale):
        ctx.note("packet2d-separable-hv-swapped",
                 f"{name_of(spec)}: node 'h' holds the vertical details")
        return True
    return False


def late(ctx, spec, tree, name):
    """A tree without data refuses access until it gets some."""
    for key in ("", LETTERS[spec["nd"]][0]):
        try:
            got = tree[key]
        except (ValueError, KeyError):
            continue
        ctx.fail("uninitialised", f"{name}: node '{key}' of a tree without data is {got!r}")
    if len(tree) or tree.maxlevel is not None:
        ctx.fail("uninitialised", f"{name}: a tree without data has {len(tree)} nodes, "
                                  f"maxlevel {tree.maxlevel}")


def run(ctx, spec):
    """Drive the tree and its model through the history; compare after each step."""
    data = gen.tensor(spec)
    name = name_of(spec)
    swap = orientation(ctx, spec, data)
    model = Model(spec, swap)
    model.transform(oracle.to_np(data))
    tree = make(spec, None if spec.get("late") else data)
    if spec.get("late"):
        late(ctx, spec, tree, name)
        tree.transform(data, spec["maxlevel"])
    lev = level_of(spec)
    tol0 = oracle.tol_for(cases.dtype_of(spec))
    g = oracle.gain(model.w) ** spec["nd"]
    gr = oracle.gain(model.w, False) ** spec["nd"]
    boost = [1.0]
    done = []

    def check(path, op):
        want = model.get(path)
        got = tree[path]
        tol = tol0 if spec["mode"] != "boundary" else 1e-8
        scale = model.scale * max(g, 1.0) ** len(path) * boost[0]
        msg = oracle.diff(got, want, tol, scale, f"{name} node '{path}' after {done}",
                          cases.dtype_of(spec))
        if msg:
            ctx.fail("node-" + op, msg)
        ctx.judged(op)

    def expect_level():
        if tree.maxlevel != lev:
            ctx.fail("maxlevel", f"{name}: maxlevel {tree.maxlevel} instead of {lev}")

    expect_level()
    for op in spec["ops"]:
        kind = op[0]
        if kind == "get":
            check(op[1], "get")
        elif kind == "init":
            tree.initialize(op[1])
            for p in op[1]:
                model.get(p)
            for p in op[1]:
                if p not in tree.data:
                    ctx.fail("initialize", f"{name}: node '{p}' was not initialised")
                check(p, "get")
        elif kind == "level":
            paths = tree.get_level(op[1], op[2])
            if spec["nd"] == 2 and op[2] == "freq":
                paths = [p for row in paths for p in row]
            if sorted(paths) != sorted("".join(p) for p in
                                       product(LETTERS[spec["nd"]], repeat=op[1])):
                ctx.fail("level-paths", f"{name}: get_level({op[1]}, {op[2]}) gives {paths}")
            for p in paths:
                check(p, "get")
        elif kind == "all":
            for p in product(LETTERS[spec["nd"]], repeat=op[1]):
                model.get("".join(p))
                tree["".join(p)]
        elif kind == "set":
            path = op[1]
            if path in model.nodes:
                v = np.random.default_rng(op[2]).standard_normal(model.nodes[path].shape)
                tree[path] = torch.from_numpy(v).to(cases.dtype_of(spec))
                model.set(path, oracle.to_np(tree[path]))
        elif kind == "del":
            # a node that is taken out is computed again from its parent, with its siblings
            path = op[1]
            family = [path[:-1] + c for c in LETTERS[spec["nd"]]]
            if path and path in model.nodes and path[:-1] in model.nodes and \
                    not any(k != f and k.startswith(f) for k in model.nodes for f in family):
                for f in family:
                    del tree[f], model.nodes[f]
                if path in tree or len(tree) != len(model.nodes):
                    ctx.fail("delete", f"{name}: node '{path}' is still there after del")
                check(path, "get")
        elif kind == "bad":
            key = op[1]
            if key in model.nodes or all(c in LETTERS[spec["nd"]] for c in key) and \
                    len(key) <= lev:
                continue
            before = sorted(tree.data)
            try:
                tree[key]
            except (KeyError, ValueError):
                ctx.judged("bad-key")
            else:
                ctx.fail("bad-key", f"{name}: key '{key}' at maxlevel {lev} was accepted")
            if sorted(tree.data) != before:
                extra = sorted(set(tree.data) - set(before))
                if any(not set(e) <= set(LETTERS[spec["nd"]]) or len(e) > lev for e in extra):
                    ctx.fail("bad-key", f"{name}: rejected key '{key}' left nodes {extra}")
            for p in sorted(tree.data):
                model.get(p)
        elif kind == "again":
            # the tensor the tree holds, changed in place by its owner or not
            x = tree.data[""].detach()
            if op[1] and spec["layout"] != "expanded":
                x.mul_(-2)
            out = tree.transform(x if op[2] else tree.data[""], lev)
            if out is not tree:
                ctx.fail("transform", f"{name}: transform does not return the tree")
            model.transform(oracle.to_np(x).copy())
            boost[0] = 1.0
            expect_level()
            if sorted(tree.data) != [""]:
                ctx.fail("transform", f"{name}: nodes {sorted(tree.data)} survive a transform")
        elif kind == "transform":
            x = gen.tensor(dict(spec, shape=op[1], ds=op[3]))
            out = tree.transform(x, op[2])
            if out is not tree:
                ctx.fail("transform", f"{name}: transform does not return the tree")
            model.transform(oracle.to_np(x))
            boost[0] = 1.0
            lev = level_of(spec, op[1], op[2])
            expect_level()
            if sorted(tree.data) != [""]:
                ctx.fail("transform", f"{name}: nodes {sorted(tree.data)} survive a transform")
        elif kind == "rec":
            if not model.complete(lev):
                before = {k: tree.data[k] for k in tree.data}
                try:
                    tree.reconstruct()
                except KeyError:
                    ctx.judged("missing-leaf")
                else:
                    ctx.fail("missing-leaf", f"{name}: reconstruct() accepts missing leaves of "
                                             f"level {lev} after {done}")
                if sorted(tree.data) != sorted(before):
                    ctx.fail("missing-leaf", f"{name}: a rejected reconstruct() adds nodes")
                # inner nodes may have been replaced already: resynchronise
                for p in list(model.nodes):
                    model.nodes[p] = oracle.to_np(tree.data[p])
            else:
                out = tree.reconstruct()
                if out is not tree:
                    ctx.fail("reconstruct", f"{name}: reconstruct does not return the tree")
                model.reconstruct(lev)
                boost[0] *= (g * gr) ** (0.5 * lev) * 4
                for p in sorted(model.nodes):
                    check(p, "rec")
        elif kind == "dump":
            known = sorted(tree.data)
            if sorted(tree) != known or len(tree) != len(known) or \
                    any(tree.get(p) is not tree.data[p] or p not in tree for p in known):
                ctx.fail("mapping", f"{name}: the mapping does not show the nodes {known}")
            for p in known:
                check(p, "dump")
        done.append(op if kind not in ("set", "transform") else op[:2])
    ctx.sig(name + str(spec["ops"]) + spec["wform"] + spec["layout"])
    ctx.count("mode:" + spec["mode"])
