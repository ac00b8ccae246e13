"""C02: wavedec2 agrees with pywt.wavedec2."""

from mon import cases, gen, hooks, monitors

COUNT = {"quick": 7000, "thorough": 70000}
RULE = ("random wavelet, mode, level, axis sizes (even, odd, at the filter length, non-square), "
        "batch shape, axes, dtype, memory layout, wavelet form and value kind; non-trivial = a "
        "wavedec2 event with at least one level was compared with pywt; distinct by the whole "
        "description except the value seed")
ASSUMPTIONS = ["pywt's C implementation is the reference for the padded 2d transform"]
REQUIRED = ["wavedec2"]
MIN_JUDGED = 500


def setup(ctx):
    hooks.install(ctx, {"wavedec2": [monitors.mon_wavedec2]})


def corner_cases(tier):
    out = []
    for wav in ["haar", "db2", "bior2.2", "rbio1.3", "sym4"]:
        fl = gen.flen(wav)
        for mode in gen.MODES:
            for k, level in enumerate([1, 2, None]):
                for sizes in cases.corner_sizes(fl, 2):
                    eff = level if level else min(gen.max_level(n, fl) for n in sizes)
                    if not all(gen.pad_ok(n, fl, mode, eff) for n in sizes):
                        continue
                    out.append({"op": "wavedec2", "wav": wav, "mode": mode, "level": level,
                                "shape": [2, *sizes], "dtype": "f64", "kind": "normal"})
    for k, wav in enumerate(w for w in gen.ALL if gen.flen(w) <= cases.FLCAP[2]):
        fl = gen.flen(wav)
        sizes = [fl + 1 + (k + j) % 4 for j in range(2)]
        out.append({"op": "wavedec2", "wav": wav, "mode": gen.MODES[k % 5], "level": 1,
                    "shape": [1, *sizes], "dtype": "f64", "kind": "normal"})
    out += cases.huge_cases("wavedec2")
    return out


def generate(rng, idx, tier):
    return cases.gen_analysis(rng, idx, "wavedec2", tier, nonfinite=True)


def case(ctx, spec):
    ctx.sig(cases.sig_of(spec))
    cases.call_analysis("wavedec2", spec)
    ctx.count("mode:" + spec["mode"])
