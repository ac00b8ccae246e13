"""Run programs in another interpreter: ``python -m mon.envchild IN OUT OPTIONS``."""

from __future__ import annotations

import gc
import json
import logging
import os
import random
import signal
import sys
import threading
import warnings


def process_state():
    """Settings of the process that importing a library must not change."""
    import numpy as np
    import torch

    return {
        "random": hash(random.getstate()),
        "numpy.random": np.random.get_state()[1].tobytes() + bytes([np.random.get_state()[2] % 251]),
        "torch.random": torch.get_rng_state().numpy().tobytes(),
        "dtype": str(torch.get_default_dtype()),
        "device": str(torch.get_default_device()),
        "threads": torch.get_num_threads(),
        "interop": torch.get_num_interop_threads(),
        "grad": torch.is_grad_enabled(),
        "inference": torch.is_inference_mode_enabled(),
        "anomaly": torch.is_anomaly_enabled(),
        "deterministic": torch.are_deterministic_algorithms_enabled(),
        "matmul": torch.get_float32_matmul_precision(),
        "geterr": str(np.geterr()),
        "printoptions": str(np.get_printoptions()),
        "warnings": [str(f) for f in warnings.filters],
        "showwarning": warnings.showwarning,
        "logging": (logging.getLogger().level, len(logging.getLogger().handlers)),
        "signals": [str(signal.getsignal(s)) for s in (signal.SIGINT, signal.SIGTERM,
                                                       signal.SIGALRM)],
        "environ": dict(os.environ),
        "cwd": os.getcwd(),
        "path": list(sys.path),
        "limit": sys.getrecursionlimit(),
        "switch": sys.getswitchinterval(),
        "gc": (gc.isenabled(), gc.get_threshold()),
        "hooks": (sys.excepthook, threading.excepthook, sys.displayhook, sys.gettrace(),
                  sys.getprofile()),
        "running": threading.active_count(),
        "stdout": (sys.stdout, sys.stderr),
    }


def compute(jobs):
    """Results of the programs: ('ok', container) or ('error', type, no message)."""
    from . import envjobs

    out = []
    for job in jobs:
        try:
            out.append(("ok", envjobs.run(job)))
        except Exception as e:  # noqa: BLE001
            out.append(("error", type(e).__name__))
    return out


def main():
    src, dst, opts = sys.argv[1], sys.argv[2], json.loads(sys.argv[3])
    import numpy  # noqa: F401
    import pywt  # noqa: F401
    import torch

    if opts.get("gc"):
        gc.set_threshold(1)
    before = process_state()
    import importlib

    for name in opts.get("imports", ["ptwt"]):
        importlib.import_module(name)
    import ptwt  # noqa: F401

    after = process_state()
    changed = [k for k in before if before[k] != after[k]]
    if opts.get("profile"):
        sys.setprofile(lambda *a: None)
    if opts.get("chdir"):
        os.chdir(opts["chdir"])
    jobs = torch.load(src, weights_only=False)
    if opts.get("fork"):
        compute(jobs[:2])
        pid = os.fork()
        if pid:
            _, status = os.waitpid(pid, 0)
            os._exit(os.waitstatus_to_exitcode(status) & 0xFF)
    if opts.get("thread"):
        box = []
        t = threading.Thread(target=lambda: box.append(compute(jobs)))
        t.start()
        t.join()
        results = box[0]
    else:
        results = compute(jobs)
    torch.save({"results": results, "changed": changed,
                "state": {"hash": hash("ptwt"), "optimize": sys.flags.optimize}}, dst)
    if opts.get("fork"):
        sys.stdout.flush()
        os._exit(0)


if __name__ == "__main__":
    main()
