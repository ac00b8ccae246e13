"""C01: wavedec agrees with pywt.wavedec."""

from mon import cases, gen, hooks, monitors

COUNT = {"quick": 5200, "thorough": 80000}
RULE = ("random wavelet (all 106 discrete families, custom and random filter banks), mode, "
        "level, length, batch shape, axis, dtype, memory layout and value kind; non-trivial = "
        "a wavedec event with at least one level was compared with pywt; distinct by the whole "
        "description except the value seed")
ASSUMPTIONS = ["pywt's C implementation is the reference for the padded 1d transform"]
REQUIRED = ["wavedec"]
MIN_JUDGED = 500


def setup(ctx):
    hooks.install(ctx, {"wavedec": [monitors.mon_wavedec]})


def corner_cases(tier):
    out = []
    for wav in ["haar", "db2", "db3", "bior2.2", "sym4", "coif1", "rbio3.1"]:
        fl = gen.flen(wav)
        for mode in gen.MODES:
            for n in [1, 2, 3, fl - 1, fl, fl + 1, 2 * fl, 2 * fl + 1, 4 * fl + 3]:
                for level in [1, 2, None]:
                    eff = gen.max_level(n, fl) if level is None else level
                    if n < 1 or not gen.pad_ok(n, fl, mode, eff):
                        continue
                    out.append({"op": "wavedec", "wav": wav, "mode": mode, "level": level,
                                "shape": [2, n], "dtype": "f64", "kind": "normal"})
    for wav in gen.ALL:
        fl = gen.flen(wav)
        for k, mode in enumerate(gen.MODES):
            out.append({"op": "wavedec", "wav": wav, "mode": mode, "level": 2,
                        "shape": [1, 4 * fl + 1 + k], "dtype": "f64", "kind": "normal"})
    out += cases.huge_cases("wavedec")
    return out


def generate(rng, idx, tier):
    return cases.gen_analysis(rng, idx, "wavedec", tier, nonfinite=True)


def case(ctx, spec):
    spec.setdefault("op", "wavedec")
    ctx.sig(cases.sig_of(spec))
    cases.call_analysis("wavedec", spec)
    ctx.count("mode:" + spec["mode"])

