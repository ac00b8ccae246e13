"""C04: fswavedec2 and fswavedec3 agree with pywt.wavedecn."""

from mon import cases, gen, hooks, monitors

COUNT = {"quick": 6000, "thorough": 60000}
RULE = ("random wavelet, mode, level, axis sizes (even, odd, at the filter length, non-square), "
        "batch shape, axes, dtype, memory layout, wavelet form and value kind for the separable "
        "2d and 3d transforms; non-trivial = an fswavedec event with at least one level was "
        "compared with pywt; distinct by the whole description except the value seed")
ASSUMPTIONS = ["pywt's C implementation is the reference for the padded nd transform"]
REQUIRED = ["fswavedec2", "fswavedec3"]
MIN_JUDGED = 500


def setup(ctx):
    hooks.install(ctx, {"fswavedec2": [monitors.mon_wavedecn(2)],
                        "fswavedec3": [monitors.mon_wavedecn(3)]})


def corner_cases(tier):
    out = []
    for op, nd in (("fswavedec2", 2), ("fswavedec3", 3)):
        for wav in ["haar", "db2", "bior2.2", "rbio1.3"]:
            fl = gen.flen(wav)
            for mode in gen.MODES:
                for level in [1, 2, None]:
                    for sizes in cases.corner_sizes(fl, nd)[:: 1 if nd == 2 else 2]:
                        eff = level if level else min(gen.max_level(n, fl) for n in sizes)
                        if not all(gen.pad_ok(n, fl, mode, eff) for n in sizes):
                            continue
                        out.append({"op": op, "wav": wav, "mode": mode, "level": level,
                                    "shape": [2, *sizes], "dtype": "f64",
                                    "kind": "normal"})
    for op in ["fswavedec2", "fswavedec3"]:
        out += cases.huge_cases(op)
    return out


def generate(rng, idx, tier):
    return cases.gen_analysis(rng, idx, "fswavedec3" if idx % 3 == 0 else "fswavedec2", tier,
                              nonfinite=True)


def case(ctx, spec):
    ctx.sig(cases.sig_of(spec))
    cases.call_analysis(spec["op"], spec)
    ctx.count("mode:" + spec["mode"])
