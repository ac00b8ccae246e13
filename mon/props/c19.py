"""C19: results keep dtype and device of the input, and depend on nothing but the values."""

import torch

from mon import gen, hooks, universe as U, vdevice as V

COUNT = {"quick": 2600, "thorough": 40000}
RULE = ("random program out of all transforms and inverses; the same values are transformed as "
        "float32 and float64, in another memory layout, with another torch default dtype, with "
        "filters given as tensors of the other dtype, and on a virtual accelerator where every "
        "torch call is checked for tensors of several devices; non-trivial = a result was "
        "compared; distinct by program description and aspect")
ASSUMPTIONS = ["the virtual accelerator checks device discipline by bookkeeping on CPU tensors; "
               "kernels of real accelerators are not executed",
               "no dtype is claimed for cwt"]
REQUIRED = ["dtype", "layout", "default_dtype", "tuple_dtype", "device", "precision"]
MIN_JUDGED = 3000
ASPECTS = ["layout", "default_dtype", "device", "precision", "tuple_dtype", "device"]


def setup(ctx):
    hooks.install(ctx, {})


def generate(rng, idx, tier):
    n = len(U.ALL)
    aspect = ASPECTS[(idx // n) % len(ASPECTS)]
    u = U.ALL[idx % n]
    if aspect == "tuple_dtype" and u == "cwt":
        u = "wavedec"
    spec = U.generate(rng, idx, u, dtypes=("f32", "f64"))
    if spec is None:
        return None
    spec["aspect"] = aspect
    if aspect == "tuple_dtype" and (u in ("m2n", "im2n") or spec.get("mode") == "boundary"):
        spec["dtype"] = "f64"
    spec["second"] = rng.choice(["transposed", "strided", "offset", "fortran", "grad", "neg0"])
    return spec


def case(ctx, spec):
    name = U.name_of(spec)
    tree = U.build_input(spec)
    dt = gen.DTYPES[spec["dtype"]]
    ref = U.make(spec)(tree)
    if spec["u"] != "cwt":
        for t in U.leaves(ref):
            if t.dtype != dt:
                ctx.fail("dtype", f"{name}: result of dtype {t.dtype} for input of dtype {dt}")
        ctx.judged("dtype")
    for t in U.leaves(ref):
        if t.device.type != "cpu" or t.layout != torch.strided:
            ctx.fail("device", f"{name}: result on {t.device} with layout {t.layout}")
    aspect = spec["aspect"]
    ctx.sig(name + aspect + spec["second"])
    tol = 1e-11 if dt == torch.float64 else 1e-4
    if spec["u"] in U.OBJECTS or spec.get("mode") == "boundary":
        tol *= 20
    if aspect == "layout":
        if spec["second"] == "neg0":
            # broadcast along a batch dimension: stride 0
            if spec["u"] not in U.FORWARD or tree.dim() == U.ND[spec["u"]]:
                other = U.tmap(lambda t: t.contiguous(), tree)
            else:
                nd = U.ND[spec["u"]]
                axes = [a % tree.dim() for a in spec.get("axes") or range(-nd, 0)]
                b = next(d for d in range(tree.dim()) if d not in axes)
                other = tree.narrow(b, 0, 1).expand(tree.shape)
                ref = U.make(spec)(other.contiguous())
        else:
            other = U.tmap(lambda t: gen.layout_tensor(t.detach(), spec["second"]), tree)
        got = U.make(spec)(other)
        U.compare(ctx, got, ref, f"{name}: layout {spec['second']}", "layout", tol)
        ctx.judged("layout")
    elif aspect == "default_dtype":
        old = torch.get_default_dtype()
        new = torch.float64 if old == torch.float32 else torch.float32
        torch.set_default_dtype(new)
        try:
            got = U.make(spec)(tree)
        finally:
            torch.set_default_dtype(old)
        U.compare(ctx, got, ref, f"{name}: default dtype {new}", "default_dtype", tol)
        ctx.judged("default_dtype")
    elif aspect == "tuple_dtype":
        # the filters as tensors of the other dtype with exactly the same values
        w = gen.wavelet(dict(spec, wform="tuple"), torch.float32)
        other = torch.float64
        a = type(w)(*(f.to(dt) for f in w))
        b = type(w)(*(f.to(other if dt == torch.float32 else torch.float32) for f in w))
        if spec["wform"] not in ("str", "tuple") or spec["u"] in U.OBJECTS \
                or spec["u"][:2] in ("wp", "rp"):
            # these need an object with dec_len
            a, b = Tuple32(spec, a), Tuple32(spec, b)
        old = gen.wavelet
        out = []
        try:
            for f in (a, b):
                gen.wavelet = lambda *args, **k: f
                out.append(U.make(spec)(tree))
        finally:
            gen.wavelet = old
        U.compare(ctx, out[1], out[0], f"{name}: filter tensors of the other dtype",
                  "tuple_dtype", tol)
        ctx.judged("tuple_dtype")
    elif aspect == "precision":
        if spec["u"] == "cwt" or spec["u"] in U.OBJECTS or spec.get("mode") == "boundary":
            # boundary rows may be (nearly) linearly dependent: their orthogonalisation is not
            # a continuous function of the filters
            return
        # values which both dtypes represent, so that only the computation rounds
        both = [U.tmap(lambda t: t.detach().to(torch.float32).to(d), tree)
                for d in (torch.float32, torch.float64)]
        out = []
        for t, d in zip(both, ("f32", "f64")):
            out.append(U.make(dict(spec, dtype=d))(t))
        got = U.tmap(lambda t: t.to(torch.float64), out[0])
        U.compare(ctx, got, out[1], f"{name}: float32 versus float64", "precision",
                  2e-4 if spec["u"] not in U.OBJECTS else 3e-3)
        ctx.judged("precision")
    else:
        m = V.VirtualDevice()
        inp = U.tmap(lambda t: V.tag(t.detach().clone()), tree)
        run = U.make(spec) if spec["u"][:2] not in ("wp", "rp") else None
        exc = None
        try:
            with m:
                got = (run or U.make(spec))(inp)
        except Exception as e:  # noqa: BLE001
            exc = e
        ctx.count("torch_calls_watched", m.calls)
        if m.mixed:
            ctx.fail("device", f"{name} with input on an accelerator: {m.mixed[0]}")
        if exc is not None:
            # nothing a real device would have rejected was seen
            ctx.count(f"inconclusive:virtual {type(exc).__name__}")
            return
        for t in U.leaves(got):
            if V.where(t) != V.GPU:
                ctx.fail("device", f"{name}: result on {V.where(t)} for input on an accelerator")
        U.compare(ctx, got, ref, f"{name}: on the virtual accelerator", "device", tol)
        ctx.judged("device")


class Tuple32(gen.PlainWavelet):
    """A wavelet object whose filters are tensors."""

    def __init__(self, spec, filters):
        self.name = spec["wav"]
        self.dec_lo, self.dec_hi, self.rec_lo, self.rec_hi = filters
        self.dec_len = self.rec_len = len(self.dec_lo)
        self.filter_bank = tuple(filters)
