"""Seeded generators of inputs, layouts and wavelets."""

from __future__ import annotations

import numpy as np
import pywt
import torch

import ptwt

MODES = ["zero", "constant", "reflect", "periodic", "symmetric"]
ALL = pywt.wavelist(kind="discrete")
SHORT = [w for w in ALL if pywt.Wavelet(w).dec_len <= 12]
MID = [w for w in ALL if pywt.Wavelet(w).dec_len <= 24]
ORTH = [w for w in ALL if pywt.Wavelet(w).orthogonal and w != "dmey"]
# the tap counts at which the common cases live
FAVOURITES = ["haar", "db2", "db3", "db4", "sym4", "sym5", "coif1", "bior2.2",
              "bior1.3", "rbio3.1", "bior4.4", "db5", "rbio1.5", "coif2", "db8"]
DTYPES = {"f32": torch.float32, "f64": torch.float64}
LAYOUTS = ["contig", "transposed", "strided", "offset", "expanded", "grad", "fortran"]
KINDS = ["normal", "normal", "normal", "uniform", "ints", "impulse", "const", "ramp",
         "huge", "tiny", "sparse", "mixed", "alternate"]


def flen(name):
    return pywt.Wavelet(name).dec_len


def pick_wavelet(rng, pool="mix", maxlen=None):
    """A wavelet name; 'mix' favours short ones but covers every family."""
    for _ in range(200):
        r = rng.random()
        if pool == "orth":
            cand = rng.choice(ORTH)
        elif r < 0.35:
            cand = rng.choice(FAVOURITES)
        elif r < 0.75:
            cand = rng.choice(SHORT)
        else:
            cand = rng.choice(ALL)
        if maxlen is None or flen(cand) <= maxlen:
            return cand
    return "haar" if pool != "orth" else "db2"


def np_signal(shape, kind, ds):
    g = np.random.default_rng(ds)
    shape = tuple(shape)
    if kind == "normal":
        return g.standard_normal(shape)
    if kind == "uniform":
        return g.uniform(-1, 3, shape)
    if kind == "ints":
        return g.integers(-9, 10, shape).astype(np.float64)
    if kind == "impulse":
        x = np.zeros(shape)
        if x.size:
            x.reshape(-1)[g.integers(0, x.size)] = 1.0
        return x
    if kind == "const":
        return np.full(shape, float(g.uniform(-5, 5)))
    if kind == "ramp":
        return np.arange(int(np.prod(shape)), dtype=np.float64).reshape(shape)
    if kind == "huge":
        return g.standard_normal(shape) * 1e8
    if kind == "tiny":
        return g.standard_normal(shape) * 1e-8
    if kind == "sparse":
        return g.standard_normal(shape) * (g.random(shape) < 0.2)
    if kind == "mixed":
        return g.standard_normal(shape) * 10.0 ** g.integers(-4, 5, shape)
    if kind == "alternate":
        x = np.indices(shape).sum(0) if len(shape) else np.zeros(())
        return np.where(x % 2 == 0, 1.0, -1.0) * (1 + 0.1 * g.standard_normal(shape))
    if kind in ("nan", "inf", "-inf"):
        # one or two entries that are no numbers; not in KINDS, few references can take them
        x = g.standard_normal(shape)
        if x.size:
            x.reshape(-1)[g.integers(0, x.size, int(g.integers(1, 3)))] = float(kind)
        return x
    raise AssertionError(kind)


def layout_tensor(x, layout):
    """The same values with another memory layout."""
    if layout == "contig" or x.dim() == 0:
        return x.clone()
    if layout == "transposed":
        return x.transpose(0, -1).contiguous().transpose(0, -1)
    if layout == "fortran":
        p = list(range(x.dim()))[::-1]
        return x.permute(p).contiguous().permute(p)
    if layout == "strided":
        big = torch.full([2 * s for s in x.shape], float("nan"), dtype=x.dtype)
        idx = tuple(slice(0, None, 2) for _ in x.shape)
        big[idx] = x
        return big[idx]
    if layout == "offset":
        big = torch.full([s + 3 for s in x.shape], float("nan"), dtype=x.dtype)
        idx = tuple(slice(2, 2 + s) for s in x.shape)
        big[idx] = x
        return big[idx]
    if layout == "expanded":
        # stride 0 along the first axis (the values repeat along it)
        return x[:1].clone().expand(x.shape)
    if layout == "grad":
        return x.clone().requires_grad_(True)
    raise AssertionError(layout)


def tensor(spec):
    """Tensor described by spec: shape, kind, ds, dtype, layout."""
    x = torch.from_numpy(np.array(np_signal(spec["shape"], spec.get("kind", "normal"),
                                            spec.get("ds", 0))))
    x = x.to(DTYPES[spec.get("dtype", "f64")])
    return layout_tensor(x, spec.get("layout", "contig"))


class PlainWavelet:
    """A user-defined object following the documented Wavelet protocol."""

    def __init__(self, name, bank):
        self.name = name
        self.dec_lo, self.dec_hi, self.rec_lo, self.rec_hi = (list(f) for f in bank)
        self.dec_len = len(self.dec_lo)
        self.rec_len = len(self.rec_lo)
        self.filter_bank = (self.dec_lo, self.dec_hi, self.rec_lo, self.rec_hi)

    def __len__(self):
        return self.dec_len


def random_bank(ds, length):
    """Arbitrary (not perfect reconstruction) filters, sums of about one."""
    g = np.random.default_rng(ds)
    return [list(g.uniform(-1, 1, length)) for _ in range(4)]


def wavelet(spec, dtype=torch.float64):
    """The wavelet argument described by spec['wav'] in the form spec['wform']."""
    name = spec["wav"]
    form = spec.get("wform", "str")
    if name.startswith("random:"):
        length = int(name.split(":")[1])
        bank = random_bank(int(name.split(":")[2]), length)
        if form == "plain":
            return PlainWavelet(name, bank)
        if form == "tuple":
            return ptwt.WaveletTensorTuple(*(torch.tensor(f, dtype=dtype) for f in bank))
        return pywt.Wavelet("custom", bank)
    if form == "str":
        return name
    if form == "pywt":
        return pywt.Wavelet(name)
    if form == "tuple":
        return ptwt.WaveletTensorTuple.from_wavelet(pywt.Wavelet(name), dtype)
    if form == "plain":
        return PlainWavelet(name, pywt.Wavelet(name).filter_bank)
    if form == "custom":
        return pywt.Wavelet("custom", pywt.Wavelet(name).filter_bank)
    raise AssertionError(form)


def oracle_wavelet(obj):
    """pywt wavelet with the filters the given wavelet argument stands for."""
    if isinstance(obj, str):
        return pywt.Wavelet(obj)
    if isinstance(obj, pywt.Wavelet):
        return obj
    bank = obj if isinstance(obj, tuple) else obj.filter_bank
    bank = [[float(v) for v in f] for f in bank]
    return pywt.Wavelet("custom", bank)


def max_level(n, flen_):
    return pywt.dwt_max_level(int(n), int(flen_)) if n >= 1 else 0


def pad_ok(n, fl, mode, level):
    """Does torch padding exist for every level of this transform?"""
    for _ in range(level):
        pad = (2 * fl - 3) // 2
        padr = pad + n % 2
        if mode == "reflect" and padr >= n:
            return False
        if mode == "periodic" and padr > n:
            return False
        n = (n + fl - 1) // 2
    return True


def rand_shape(rng, batch_dims, sizes):
    """Batch shape plus transformed sizes."""
    return [rng.choice([1, 1, 2, 3]) for _ in range(batch_dims)] + list(sizes)
