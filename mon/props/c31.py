"""C31: the programs in examples/ compute what they document."""

import contextlib
import importlib.util
import io
import os
import runpy
import shutil
import sys
import tempfile
import types
from unittest import mock

import numpy as np
import pywt
import torch

from mon import core, gen, oracle

COUNT = {"quick": 1600, "thorough": 30000}
RULE = ("random wavelet layers (filter bank, depth, scales, dropout, diagonals, batch, dtype) of "
        "the network compression example are taken apart and compared with numpy and pywt, before "
        "and after a training step, its training program is run on random pictures with the "
        "absent packages replaced by recorders, the packet pictures of the second example are "
        "compared with pywt's, and the two analysis scripts are run with a recorder in place of "
        "matplotlib; non-trivial = an output was compared; distinct by the description")
ASSUMPTIONS = ["the layer is used with an even depth, as it documents no padding",
               "matplotlib, tqdm, torchvision, tensorboard and pystow are replaced by recorders"]
REQUIRED = ["inverse", "layer", "training", "dropout", "program", "picture", "script"]
MIN_JUDGED = 1000
EX = os.path.join(core.REPO, "examples")
WAVS = ["haar", "db2", "db3", "sym4", "bior2.2", "bior3.1", "rbio1.3", "coif1"]
_mods = {}


class Recorder(mock.MagicMock):
    """Stands for a package which is not installed or not wanted."""


def load(path, **stubs):
    """The example module at path, with stand-ins for the packages it imports."""
    if path not in _mods:
        spec = importlib.util.spec_from_file_location(
            "example_" + os.path.basename(path)[:-3], os.path.join(EX, path))
        mod = importlib.util.module_from_spec(spec)
        with stand_ins(stubs), on_path(os.path.dirname(os.path.join(EX, path))):
            spec.loader.exec_module(mod)
        _mods[path] = mod
    return _mods[path]


@contextlib.contextmanager
def stand_ins(stubs):
    names = {}
    for name, value in stubs.items():
        parts = name.replace("__", ".").split(".")
        names[".".join(parts)] = value
        for k in range(len(parts) - 1, 0, -1):
            above = ".".join(parts[:k])
            if above in sys.modules:
                break
            names.setdefault(above, Recorder(name=above))
            setattr(names[above], parts[k], names[".".join(parts[:k + 1])])
    with mock.patch.dict(sys.modules, names):
        yield names


@contextlib.contextmanager
def on_path(folder):
    sys.path.insert(0, folder)
    try:
        yield
    finally:
        sys.path.remove(folder)


def corner_cases(tier):
    out = [{"op": "script", "name": n} for n in ("cwt", "chirp")]
    out += [{"op": "program", "compression": c} for c in ("Wavelet", "None")]
    out += [{"op": "layer", "wav": "haar", "depth": 16, "scales": s, "batch": 3, "p": 0.5,
             "dtype": "f32", "form": "product"} for s in (1, 2, 3, 4)]
    return out


def generate(rng, idx, tier):
    op = rng.choice(["layer"] * 8 + ["picture"] * 3)
    if op == "picture":
        degree = rng.choice([1, 1, 2, 2, 3])
        return {"op": op, "degree": degree, "batch": rng.choice([1, 2, 3]), "ds": idx,
                "size": [2 ** degree * rng.randrange(2, 9) for _ in range(2)],
                "channels": rng.choice([1, 3])}
    if idx % 400 == 7:
        return {"op": "program", "compression": rng.choice(["Wavelet", "None"]), "ds": idx}
    wav = rng.choice(WAVS)
    depth = 2 * rng.randrange(2, rng.choice([12, 40, 200]))
    top = gen.max_level(depth, gen.flen(wav))
    if top < 1:
        return None
    return {"op": op, "wav": wav, "depth": depth, "scales": rng.randrange(1, top + 1),
            "batch": rng.choice([1, 2, 5]), "p": rng.choice([0.0, 0.3, 0.5, 0.9]),
            "dtype": rng.choice(["f32", "f64"]), "form": rng.choice(["product", "soft"]),
            "ds": idx}


def case(ctx, spec):
    globals()["case_" + spec["op"]](ctx, spec)


# ---- the wavelet layer -------------------------------------------------------


def bank_of(wavelet):
    """The current filters as a pywt wavelet."""
    return pywt.Wavelet("learned", filter_bank=[f.detach().double().tolist()
                                                for f in wavelet.filter_bank])


def analysis(x, wav, scales):
    return np.concatenate(pywt.wavedec(x, wav, mode="reflect", level=scales, axis=-1), -1)


def synthesis(c, wav, lengths, shifted=False):
    """The reconstruction, or (the known finding) the one from shifted slices."""
    starts = np.concatenate([[0], np.cumsum(lengths)[:-1]])
    if shifted:
        starts = [0] + lengths[::-1][:-1]
    parts = [c[..., a:a + n] for a, n in zip(starts, lengths)]
    return pywt.waverec(parts, wav, axis=-1)


def expect(layer, x, scales, lengths, shifted):
    b, _, p, g, _, s = layer.sequence
    wav = bank_of(layer.sequence[1].wavelet)
    num = lambda t: t.detach().double().numpy()  # noqa: E731
    y = analysis(num(x) * num(b.ones), wav, scales)
    y = y @ num(p.perm) * num(g.ones)
    return synthesis(y, wav, lengths, shifted) * num(s.ones)


def case_layer(ctx, spec):
    from ptwt import wavelets_learnable as wl

    mod = load("network_compression/wavelet_linear.py")
    dtype = torch.float64 if spec["dtype"] == "f64" else torch.float32
    torch.manual_seed(spec["ds"])
    np.random.seed(spec["ds"] % 2 ** 32)
    w = pywt.Wavelet(spec["wav"])
    cls = wl.ProductFilter if spec["form"] == "product" else wl.SoftOrthogonalWavelet
    wavelet = cls(*(torch.tensor(f, dtype=dtype) for f in w.filter_bank))
    depth, scales = spec["depth"], spec["scales"]
    what = f"layer {spec['wav']} depth {depth} scales {scales}"
    x = torch.randn(spec["batch"], depth, dtype=dtype)
    tol = 1e-10 if dtype == torch.float64 else 1e-4
    lengths, n = [], depth
    for _ in range(scales):
        n = pywt.dwt_coeff_len(n, w.dec_len, "reflect")
        lengths.insert(0, n)
    lengths = lengths[:1] + lengths

    layer = mod.WaveletLayer(depth, wavelet, scales, p_drop=spec["p"]).to(dtype)
    b, dec, perm, g, rec, s = layer.sequence
    # the two transforms on their own
    coeffs = dec(x)
    ref = analysis(x.double().numpy(), w, scales)
    bad = oracle.diff(coeffs, ref, tol, np.abs(ref).max() + 1, what + ": decomposition", dtype)
    if bad:
        ctx.fail("decomposition", bad)
    scale = np.abs(ref).max() + 1
    other = torch.randn(spec["batch"], sum(lengths), dtype=dtype)
    shifted = False
    for given, aim in ((coeffs, "the decomposition"), (other, "other coefficients")):
        num = given.detach().double().numpy()
        want = x.double().numpy() if given is coeffs else synthesis(num, w, lengths)
        got = rec(given)
        bad = oracle.diff(got, want, tol, scale, f"{what}: reconstruction of {aim}", dtype)
        if bad and scales > 1 and not oracle.diff(
                got, synthesis(num, w, lengths, True)[..., :got.shape[-1]], tol, scale, what,
                dtype):
            ctx.note("compression-layer-slices", bad)
            shifted = True
        elif bad:
            ctx.fail("inverse", bad)
    ctx.judged("inverse")
    m = perm.perm.detach().double().numpy()
    if m.shape != (sum(lengths),) * 2 or not (np.isin(m, (0, 1)).all() and (m.sum(0) == 1).all()
                                              and (m.sum(1) == 1).all()):
        ctx.fail("permutation", f"{what}: the permutation matrix is none")
    if perm.perm.requires_grad:
        ctx.fail("permutation", f"{what}: the permutation would be trained")

    # the layer, with every factor drawn at random
    with torch.no_grad():
        for d in (b, g, s):
            d.ones.copy_(torch.randn_like(d.ones))
    layer.eval()
    ref = expect(layer, x, scales, lengths, shifted)
    bad = oracle.diff(layer(x), ref, tol, np.abs(ref).max() + 10, what, dtype)
    if bad:
        ctx.fail("layer", bad)
    ctx.judged("layer")

    # a training step with dropout moves every parameter, and the layer follows
    if spec["p"]:
        layer.train()
        keep = s(torch.ones(3, depth, dtype=dtype)) / s.ones
        values = torch.unique((keep * (1 - spec["p"])).detach().round(decimals=4))
        if not torch.equal(keep[0], keep[-1]) or not set(values.tolist()) <= {0.0, 1.0}:
            ctx.fail("dropout", f"{what}: factors {values.tolist()} with dropout {spec['p']}")
        ctx.judged("dropout")
    layer.eval()
    opt = torch.optim.SGD([p for p in layer.parameters() if p.requires_grad], lr=1e-2)
    before = {k: v.detach().clone() for k, v in layer.named_parameters()}
    loss = layer(x).pow(2).sum() + wavelet.wavelet_loss()
    loss.backward()
    norm = torch.cat([p.grad.flatten() for p in opt.param_groups[0]["params"]]).norm()
    for p in opt.param_groups[0]["params"]:
        p.grad /= norm + 1e-9
    opt.step()
    moved = {k for k, v in layer.named_parameters() if not torch.equal(v, before[k])}
    still = {k for k in before if k not in moved and not k.endswith("perm")}
    if still:
        ctx.fail("training", f"{what}: {sorted(still)} do not change in training")
    ref = expect(layer, x, scales, lengths, shifted)
    bad = oracle.diff(layer(x), ref, tol, np.abs(ref).max() + 10, what + " after training", dtype)
    if bad:
        ctx.fail("training", bad)
    ctx.judged("training")
    ctx.sig(repr(sorted(spec.items())))


# ---- its training program ----------------------------------------------------


class Pictures(torch.utils.data.Dataset):
    def __init__(self, base, train=True, **_):
        g = torch.Generator().manual_seed(int(train))
        self.x = torch.randn(24 if train else 10, 1, 28, 28, generator=g)
        self.y = torch.randint(0, 10, (len(self.x),), generator=g)

    def __len__(self):
        return len(self.x)

    def __getitem__(self, k):
        return self.x[k], int(self.y[k])


def case_program(ctx, spec):
    board = Recorder(name="tensorboard")
    with on_path(os.path.join(EX, "network_compression")):
        mod = load("network_compression/mnist_compression.py",
                   matplotlib__pyplot=Recorder(name="pyplot"), pystow=Recorder(name="pystow"),
                   torchvision=types.SimpleNamespace(
                       datasets=types.SimpleNamespace(MNIST=Pictures), transforms=Recorder()),
                   torch__utils__tensorboard__writer=Recorder(name="writer"))
    nets, saved = [], []

    class Net(mod.Net):
        def __init__(self, *a, **k):
            super().__init__(*a, **k)
            nets.append(self)
            saved.append({k: v.detach().clone() for k, v in self.named_parameters()})

    tmp = tempfile.mkdtemp(prefix="verif_c31_")
    argv = ["mnist", "--no-cuda", "--epochs", "2", "--batch-size", "12", "--lr", "0.5",
            "--test-batch-size", "5", "--compression", spec["compression"]]
    text = io.StringIO()
    seen = Recorder(name="figure")
    real_net = mod.Net
    try:
        from pathlib import Path
        with mock.patch.object(mod, "Net", Net), mock.patch.object(mod, "HERE", Path(tmp)), \
                mock.patch.object(mod, "SummaryWriter", lambda: board), \
                mock.patch.object(mod, "plt", seen), mock.patch.object(sys, "argv", argv), \
                contextlib.redirect_stdout(text):
            # super() of the recording class needs the original
            Net.__bases__ = (real_net,)
            try:
                mod.main()
            except AttributeError as e:
                # the known finding; go on with the attribute which is missing
                if spec["compression"] != "None" or \
                        "object has no attribute 'wavelet'" not in str(e):
                    raise
                ctx.note("mnist-none-wavelet", str(e))
                Net.wavelet = None
                nets.clear(), saved.clear(), board.reset_mock(), seen.reset_mock()
                try:
                    mod.main()
                except AttributeError as e:
                    if "'NoneType' object has no attribute 'filter_bank'" not in str(e):
                        raise
    finally:
        shutil.rmtree(tmp)
    what = f"program with compression {spec['compression']}"
    log = {}
    for call in board.add_scalar.call_args_list:
        key, value, epoch = call.args
        log.setdefault(key, {})[epoch] = float(value)
    if set(log) != {"test_correct", "test_loss", "test_acc", "wvl_loss"} or \
            any(set(v) != {0, 1, 2} for v in log.values()):
        ctx.fail("program", f"{what}: recorded {({k: sorted(v) for k, v in log.items()})}")
    net = nets[0].eval()
    data = Pictures(None, train=False)
    with torch.no_grad():
        out = net(data.x)
        right = int((out.argmax(1) == data.y).sum())
        loss = float(torch.nn.functional.nll_loss(out, data.y))
    want = {"test_correct": right, "test_loss": loss, "test_acc": 100.0 * right / len(data),
            "wvl_loss": 0.0}
    if spec["compression"] == "Wavelet":
        want["wvl_loss"] = float(net.wavelet.wavelet_loss())
    for k, v in want.items():
        if abs(log[k][2] - v) > 1e-4 * (1 + abs(v)):
            ctx.fail("program", f"{what}: {k} recorded as {log[k][2]} instead of {v}")
    still = [k for k, v in net.named_parameters()
             if v.requires_grad and torch.equal(v, saved[0][k])]
    if still:
        ctx.fail("program", f"{what}: {still} do not change in training")
    if seen.plot.call_count != (4 if spec["compression"] == "Wavelet" else 0):
        ctx.fail("program", f"{what}: {seen.plot.call_count} curves are plotted")
    ctx.judged("program")


# ---- packet pictures ---------------------------------------------------------


def case_picture(ctx, spec):
    mod = load("deepfake_analysis/packet_plot.py", matplotlib__pyplot=Recorder(),
               tqdm=types.SimpleNamespace(tqdm=lambda x: x), PIL=Recorder())
    import ptwt

    g = np.random.default_rng(spec["ds"])
    shape = [spec["batch"], *spec["size"], spec["channels"]]
    data = g.uniform(0, 255, shape)
    degree = spec["degree"]
    paths = ptwt.WaveletPacket2D.get_natural_order(degree)
    packets = mod.process_images(torch.from_numpy(data), paths)
    what = f"pictures {shape} degree {degree}"
    flat = (data / 255.0).mean(-1)
    rows = []
    for img in flat:
        wp = pywt.WaveletPacket2D(img, "haar", mode="reflect", maxlevel=degree)
        ref = np.stack([np.log(np.abs(wp["".join(p)].data) + 1e-12) for p in paths])
        rows.append(np.block([[np.log(np.abs(node.data) + 1e-12) for node in row]
                              for row in wp.get_level(degree, "freq")]))
        got = packets[len(rows) - 1]
        near = np.abs(np.exp(ref) - np.exp(oracle.to_np(got)))
        if got.shape != ref.shape or float(near.max()) > 1e-9:
            ctx.fail("picture", f"{what}: packets of shape {tuple(got.shape)} differ")
        image = mod.generate_frequency_packet_image(got.numpy(), degree)
        if image.shape != rows[-1].shape or \
                float(np.abs(np.exp(image) - np.exp(rows[-1])).max()) > 1e-9:
            ctx.fail("picture", f"{what}: the picture is not pywt's frequency ordering")
    ctx.judged("picture")
    ctx.sig(what)


# ---- scripts -----------------------------------------------------------------


def case_script(ctx, spec):
    plt = Recorder(name="pyplot")
    axes = [Recorder(), Recorder()]
    plt.subplots.return_value = (Recorder(), axes)
    path = {"cwt": "continuous_signal_analysis/cwt_chirp_analysis.py",
            "chirp": "wavelet_packet_chirp_analysis/chirp_analysis.py"}[spec["name"]]
    with stand_ins({"matplotlib.pyplot": plt}):
        runpy.run_path(os.path.join(EX, path), run_name="__main__")
    image = np.asarray(axes[1].imshow.call_args.args[0])
    if spec["name"] == "cwt":
        from scipy import signal

        t = np.linspace(-2, 2, 800, endpoint=False)
        ref, freqs = pywt.cwt(signal.chirp(t, f0=1, f1=12, t1=2, method="linear"),
                              np.arange(1, 31), "mexh", sampling_period=(4 / 800) * np.pi)
        if image.shape != ref.shape or np.abs(image - ref).max() > 1e-9 * np.abs(ref).max():
            ctx.fail("script", "cwt_chirp_analysis.py does not show pywt's transform")
        extent = axes[1].imshow.call_args.kwargs["extent"]
        if not np.allclose(extent, [min(t), max(t), min(freqs), max(freqs)]):
            ctx.fail("script", f"cwt_chirp_analysis.py labels its axes {extent}")
    else:
        # row k shows the band around (k + 1/2) * 500 / 32 Hz, the chirp is at 256 t Hz
        cols = np.arange(4, image.shape[1] - 4)
        time = (cols + 0.5) * 2 / image.shape[1]
        row = 256 * time / 500 * 32 - 0.5
        seen = np.abs(image[:, cols]).argmax(0)
        away = np.abs(seen - row)[row < 31]
        if image.shape[0] != 32 or np.median(away) > 1 or away.max() > 6:
            ctx.fail("script", f"chirp_analysis.py shows the frequencies {seen.tolist()}")
        ticks = np.asarray(axes[1].set_yticklabels.call_args.args[0], dtype=float)
        if not np.allclose(ticks, np.arange(0, 32, 4) * 500 / 32):
            ctx.fail("script", f"chirp_analysis.py labels its rows {ticks}")
    ctx.judged("script")
