"""C03: wavedec3 agrees with pywt.wavedecn."""

from mon import cases, gen, hooks, monitors

COUNT = {"quick": 3200, "thorough": 32000}
RULE = ("random wavelet, mode, level, axis sizes (even, odd, at the filter length, non-square), "
        "batch shape, axes, dtype, memory layout, wavelet form and value kind; non-trivial = a "
        "wavedec3 event with at least one level was compared with pywt; distinct by the whole "
        "description except the value seed")
ASSUMPTIONS = ["pywt's C implementation is the reference for the padded 3d transform"]
REQUIRED = ["wavedec3"]
MIN_JUDGED = 500


def setup(ctx):
    hooks.install(ctx, {"wavedec3": [monitors.mon_wavedecn(3)]})


def corner_cases(tier):
    out = []
    for wav in ["haar", "db2", "bior2.2", "rbio1.3", "sym4"]:
        fl = gen.flen(wav)
        for mode in gen.MODES:
            for k, level in enumerate([1, 2, None]):
                for sizes in cases.corner_sizes(fl, 3):
                    eff = level if level else min(gen.max_level(n, fl) for n in sizes)
                    if not all(gen.pad_ok(n, fl, mode, eff) for n in sizes):
                        continue
                    out.append({"op": "wavedec3", "wav": wav, "mode": mode, "level": level,
                                "shape": [2, *sizes], "dtype": "f64", "kind": "normal"})
    for k, wav in enumerate(w for w in gen.ALL if gen.flen(w) <= cases.FLCAP[3]):
        fl = gen.flen(wav)
        sizes = [fl + 1 + (k + j) % 4 for j in range(3)]
        out.append({"op": "wavedec3", "wav": wav, "mode": gen.MODES[k % 5], "level": 1,
                    "shape": [1, *sizes], "dtype": "f64", "kind": "normal"})
    out += cases.huge_cases("wavedec3")
    return out


def generate(rng, idx, tier):
    return cases.gen_analysis(rng, idx, "wavedec3", tier, nonfinite=True)


def case(ctx, spec):
    ctx.sig(cases.sig_of(spec))
    cases.call_analysis("wavedec3", spec)
    ctx.count("mode:" + spec["mode"])
