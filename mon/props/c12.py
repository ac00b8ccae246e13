"""C12: reconstruct() rebuilds the tree from its (possibly edited) leaves."""

from mon import gen, hooks, oracle, packetmodel

COUNT = {"quick": 1300, "thorough": 30000}
RULE = ("random 1d and 2d tree configurations and histories that complete the leaves, edit some, "
        "reconstruct (also with missing leaves, repeatedly, and after a re-transform); every node "
        "is compared with the model after each reconstruct, the root with the input if no leaf was "
        "edited; non-trivial = a reconstruct was judged; distinct by configuration and history")
ASSUMPTIONS = ["pywt's single-level synthesis (padding modes) and fresh matrix objects (boundary "
               "mode, judged by C07-C09) are the reference for one merge"]
REQUIRED = ["rec", "missing-leaf", "identity"]
MIN_JUDGED = 1000


def setup(ctx):
    hooks.install(ctx, {})


def corner_cases(tier):
    out = []
    for nd in (1, 2):
        for mode in gen.MODES + ["boundary"]:
            for wav in ["haar", "db2"]:
                for n in [16, 17, 19]:
                    for sep in ([False] if nd == 1 else [False, True]):
                        spec = {"nd": nd, "mode": mode, "orth": "qr", "sep": sep,
                                "dtype": "f64", "layout": "contig", "kind": "normal",
                                "wform": "str", "wav": wav, "shape": [2, n, n - 4][:nd + 1],
                                "axes": None, "maxlevel": 2, "ops": [["all", 2], ["rec"]]}
                        if mode == "boundary" and not sep and nd == 2:
                            spec["shape"] = [2, 8, 11]
                        if packetmodel.feasible(spec):
                            out.append(spec)
    for nd in (1, 2):
        out += packetmodel.deep_cases(nd, True)
    return out


def generate(rng, idx, tier):
    return packetmodel.generate(rng, idx // 2, tier, 1 + idx % 2, True, True)


def case(ctx, spec):
    packetmodel.run(ctx, spec)
    # a fresh, fully expanded and unedited tree gives its input back
    if spec["wav"] == "dmey":
        return
    data = gen.tensor(spec)
    tree = packetmodel.make(spec, data)
    lev = packetmodel.level_of(spec)
    from itertools import product

    tree.initialize("".join(p) for p in product(packetmodel.LETTERS[spec["nd"]], repeat=lev))
    rec = tree.reconstruct()[""]
    x = oracle.to_np(data)
    name = packetmodel.name_of(spec)
    if rec.dim() != x.ndim or any(r - s not in (0, 1) for r, s in zip(rec.shape, x.shape)):
        ctx.fail("reconstruct", f"{name}: reconstructed shape {tuple(rec.shape)}")
    rec = rec[tuple(slice(0, n) for n in x.shape)]
    w = gen.oracle_wavelet(gen.wavelet(spec))
    g = oracle.gain(w) * oracle.gain(w, False)
    tol = (1e-8 if spec["mode"] == "boundary" else
           min(4 * oracle.tol_for(data.dtype) * g ** (0.5 * lev * spec["nd"]),
               200 * oracle.tol_for(data.dtype)))
    tol += 4 * spec["nd"] * lev * oracle.pr_defect(w) * g ** (0.5 * spec["nd"])
    msg = oracle.diff(rec, x, tol, float(abs(x).max()), name, data.dtype)
    if msg:
        ctx.fail("reconstruct-identity", msg)
    ctx.judged("identity")
