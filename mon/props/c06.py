"""C06: the synthesis functions are the linear synthesis operators of pywt."""

from mon import cases, gen, hooks, monitors

COUNT = {"quick": 9000, "thorough": 110000}
RULE = ("arbitrary (edited, not necessarily consistent) coefficients of a random transform "
        "structure, wavelet, sizes, axes, dtype, layout; non-trivial = a synthesis event with at "
        "least one detail level was compared with pywt; distinct by the whole description except "
        "the value seed")
ASSUMPTIONS = ["pywt's C implementation is the reference for the synthesis"]
REQUIRED = ["waverec", "waverec2", "waverec3", "fswaverec2", "fswaverec3"]
MIN_JUDGED = 500
OPS = ["wavedec", "wavedec2", "wavedec", "wavedec2", "wavedec3", "fswavedec2", "fswavedec3"]


def setup(ctx):
    hooks.install(ctx, {
        "waverec": [monitors.mon_rec(1, "1d")],
        "waverec2": [monitors.mon_rec(2, "2d")],
        "waverec3": [monitors.mon_rec(3, "nd")],
        "fswaverec2": [monitors.mon_rec(2, "nd")],
        "fswaverec3": [monitors.mon_rec(3, "nd")],
    })


def corner_cases(tier):
    out = []
    for op in ["wavedec", "wavedec2", "wavedec3", "fswavedec2", "fswavedec3"]:
        nd = cases.NDIM[op]
        for wav in ["haar", "db2", "bior2.2", "rbio3.1", "sym4"]:
            fl = gen.flen(wav)
            if nd == 3 and fl > 6:
                continue
            for sizes in cases.corner_sizes(fl, nd):
                for level in [0, 1, 2, 3]:
                    out.append({"op": op, "wav": wav, "mode": "zero", "level": level,
                                "shape": [2, *sizes], "dtype": "f64", "kind": "normal"})
    for op in cases.INVERSE:
        out += cases.huge_cases(op, ("zero",))
    return out


def generate(rng, idx, tier):
    return cases.gen_analysis(rng, idx, OPS[idx % len(OPS)], tier, nonfinite=True)


def case(ctx, spec):
    coeffs = cases.build_coeffs(spec, spec["kind"])
    if spec["op"] == "wavedec" and spec["ds"] % 2:
        coeffs = tuple(coeffs)
    w = gen.wavelet(spec, cases.dtype_of(spec))
    ctx.sig(cases.sig_of(spec))
    cases.call_synthesis(cases.INVERSE[spec["op"]], coeffs, w, spec)
