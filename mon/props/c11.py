"""C11: every node of a 2d packet tree is its filter path, however it is reached."""

from mon import gen, hooks, packetmodel

COUNT = {"quick": 2400, "thorough": 30000}
RULE = ("random configuration (wavelet, five padding modes and boundary wavelets, axes, level, "
        "dtype) and random history of lazy accesses, initialize, get_level sweeps, node edits, "
        "invalid keys and re-transforms, each observed node compared with a model tree; "
        "non-trivial = at least one node was compared; distinct by configuration and history")
ASSUMPTIONS = ["pywt's single-level transform (padding modes) and fresh level-one matrix objects "
               "(boundary mode, judged by C07-C09) are the reference for one expansion"]
REQUIRED = ["get", "dump", "bad-key"]
MIN_JUDGED = 1000


def setup(ctx):
    hooks.install(ctx, {})


def corner_cases(tier):
    out = []
    for mode in gen.MODES + ["boundary"]:
        for wav in ["haar", "db2"] + (["bior2.2", "sym4"] if mode != "boundary" else []):
            for n in [16, 19]:
                for sep in ([False] if 2 == 1 else [False, True]):
                    spec = {"nd": 2, "mode": mode, "orth": "qr", "sep": sep, "dtype": "f64",
                            "layout": "contig", "kind": "normal", "wform": "str", "wav": wav,
                            "shape": [2, n, n - 5][: 2 + 1], "axes": None, "maxlevel": 2}
                    if mode == "boundary" and not sep and 2 == 2:
                        spec["shape"] = [2, 8, 10]
                    if not packetmodel.feasible(spec):
                        continue
                    first, second = ("dd", "ad") if 2 == 1 else ("hv", "va")
                    spec["ops"] = [["bad", "aaa"], ["get", first], ["get", second],
                                   ["level", 2, "freq"], ["set", "a", 7], ["dump"]]
                    out.append(spec)
    out += packetmodel.deep_cases(2, False)
    return out


def generate(rng, idx, tier):
    return packetmodel.generate(rng, idx, tier, 2, False, True)


case = packetmodel.run
