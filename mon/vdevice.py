"""A virtual accelerator: real values on the CPU, device discipline watched per call.

Inside ``VirtualDevice`` every tensor carries the device it would live on.  Input
tensors are tagged with ``tag``; everything torch creates without an explicit device
lives on the CPU.  Each torch call is checked the way a real accelerator would check
it: tensors of different devices do not mix (0-d CPU tensors and CPU indices do).
"""

from __future__ import annotations

import torch
from torch.overrides import TorchFunctionMode
from torch.utils import _pytree as pytree

CPU = torch.device("cpu")
GPU = torch.device("cuda:0")


def tag(t, dev=GPU):
    t._verif_dev = dev
    return t


def where(t):
    return getattr(t, "_verif_dev", CPU)


def norm(dev):
    dev = torch.device(dev)
    if dev.type == "cuda" and dev.index is None:
        return torch.device("cuda:0")
    return torch.device("cpu") if dev.type == "cpu" else dev


# calls which accept tensors of several devices
ANY = {"sparse_coo_tensor", "tensor", "as_tensor", "__getitem__", "__setitem__", "copy_", "to",
       "index_put_", "index_put", "_sparse_coo_tensor_unsafe", "asarray", "__get__", "__set__"}
HOST = {"numpy", "__array__", "from_numpy"}


class VirtualDevice(TorchFunctionMode):
    def __init__(self):
        super().__init__()
        self.calls = 0
        self.mixed = []
        self.seen = set()

    def __torch_function__(self, func, types, args=(), kwargs=None):
        kwargs = dict(kwargs or {})
        name = getattr(func, "__name__", str(func))
        self.calls += 1
        if func == torch.Tensor.device.__get__:
            return where(args[0])
        if func == torch.Tensor.is_cuda.__get__:
            return where(args[0]).type == "cuda"
        if func == torch.Tensor.is_cpu.__get__:
            return where(args[0]).type == "cpu"
        if func is torch.Tensor.get_device:
            return -1 if where(args[0]) == CPU else 0
        flat = [t for t in pytree.tree_flatten((args, kwargs))[0] if isinstance(t, torch.Tensor)]
        target = None
        args = list(args)
        if kwargs.get("device") is not None:
            target = norm(kwargs["device"])
            kwargs["device"] = CPU
        if func in (torch.Tensor.to, torch.Tensor.cpu, torch.Tensor.cuda):
            if name == "cpu":
                target = CPU
            elif name == "cuda":
                target, args, func = GPU, args[:1], torch.Tensor.to
                args = args + [CPU]
            else:
                for i, a in enumerate(args[1:], 1):
                    if isinstance(a, (str, torch.device)) or (isinstance(a, int)
                                                              and not isinstance(a, bool)):
                        target = norm(a)
                        args[i] = CPU
                    elif isinstance(a, torch.Tensor):
                        target = where(a)
        if name in HOST and any(where(t) != CPU for t in flat):
            self.mixed.append(f"{name} of an accelerator tensor")
        devs = {where(t) for t in flat}
        if len(devs) > 1 and name not in ANY:
            strict = {where(t) for t in flat if t.dim() > 0}
            if len(strict) > 1:
                self.mixed.append(f"{name} of tensors on " + " and ".join(sorted(map(str, devs))))
        self.seen.add(name)
        out = func(*args, **kwargs)
        if target is None:
            if name in ("sparse_coo_tensor", "_sparse_coo_tensor_unsafe") and len(flat) > 1:
                target = where(flat[1])
            elif name in ("__getitem__", "copy_", "index_put_", "index_put") and flat:
                target = where(flat[0])
            elif name in ("tensor", "as_tensor", "asarray"):
                target = where(args[0]) if args and isinstance(args[0], torch.Tensor) else CPU
            else:
                gpu = [d for d in devs if d != CPU]
                target = gpu[0] if gpu else CPU
        def mark(t):
            if isinstance(t, torch.Tensor):
                if where(t) != target:
                    if any(t is a for a in flat) and name not in ("to", "as_tensor", "cuda", "cpu",
                                                                 "asarray"):
                        return t
                    if any(t is a for a in flat):
                        t = t.view_as(t) if t.layout == torch.strided else t.clone()
                    t._verif_dev = target
            return t

        return pytree.tree_map(mark, out)
