"""Shared machinery: contexts, verdicts, evidence and the case runner.

A *case* is a JSON-serialisable dictionary (``spec``).  It determines one small
program against the public API completely, so that a violation can be replayed
from the file named on its VIOLATION line.
"""

from __future__ import annotations

import hashlib
import json
import os
import random
import sys
import time
import traceback
from collections import Counter

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")


class Violation(Exception):
    """An oracle rejected an observed execution."""

    def __init__(self, mech: str, detail: str):
        super().__init__(f"{mech}: {detail}")
        self.mech = mech
        self.detail = detail


class Inconclusive(Exception):
    """A case could not be judged (harness limit, not a verdict)."""


def stable_seed(*parts) -> int:
    h = hashlib.sha256(json.dumps(parts, sort_keys=True, default=str).encode())
    return int.from_bytes(h.digest()[:8], "big")


class Ctx:
    """State of one shard of one check."""

    def __init__(self, prop, tier, seed, shard, nshards):
        self.prop = prop
        self.tier = tier
        self.seed = seed
        self.shard = shard
        self.nshards = nshards
        self.counters: Counter = Counter()
        self.distinct: set[str] = set()
        self.samples: list = []
        self.violations: list[dict] = []
        self.known: Counter = Counter()
        self.cases = 0
        self.spec: dict | None = None
        self.nontrivial = False
        self._sig: str | None = None
        self.case_log: list[Violation] = []
        self.known_table = load_known(prop)

    # ---- recording -----------------------------------------------------
    def count(self, key, n=1):
        self.counters[key] += n

    def judged(self, key="oracle", n=1):
        """One oracle evaluation over observed behaviour took place."""
        self.counters["judged:" + key] += n
        self.nontrivial = True

    def sig(self, text):
        """What makes this case distinct from the other ones."""
        self._sig = text

    def fail(self, mech, detail):
        raise Violation(mech, detail)

    def note(self, mech, detail):
        """Record a violation but go on with the case (used inside hooks)."""
        if len(self.case_log) < 20:
            self.case_log.append(Violation(mech, detail))

    def add_violation(self, v: Violation, spec):
        for entry in self.known_table:
            if entry["mechanism"] == v.mech:
                self.known[v.mech] += 1
                return
        if len(self.violations) < 50:
            self.violations.append(
                {"mech": v.mech, "detail": v.detail[:2000], "spec": spec}
            )
        else:
            self.count("violations_beyond_50")

    # ---- running -------------------------------------------------------
    def run_case(self, fn, spec):
        self.spec = spec
        self.nontrivial = False
        self._sig = None
        self.case_log = []
        self.cases += 1
        try:
            fn(self, spec)
        except Violation as v:
            self.case_log.append(v)
        except Inconclusive as e:
            self.count("inconclusive:" + str(e)[:60])
        except (MemoryError, KeyboardInterrupt):
            raise
        except Exception as e:  # noqa: BLE001
            tb = traceback.extract_tb(e.__traceback__)
            inside = [f for f in tb if "/src/ptwt/" in f.filename]
            where = inside[-1] if inside else tb[-1]
            kind = "unexpected-exception" if inside else "unusable-result"
            self.case_log.append(
                Violation(
                    f"{kind}:{type(e).__name__}",
                    f"{e} at {os.path.basename(where.filename)}:{where.lineno} "
                    f"({where.name}) | "
                    + " < ".join(
                        f"{os.path.basename(f.filename)}:{f.lineno}"
                        for f in reversed(tb[-6:])
                    ),
                )
            )
        for v in self.case_log:
            self.add_violation(v, spec)
        if self.nontrivial:
            key = self._sig or json.dumps(spec, sort_keys=True, default=str)
            self.distinct.add(hashlib.sha1(key.encode()).hexdigest()[:16])
            if len(self.samples) < 3:
                self.samples.append(spec)
        self.spec = None

    def dump(self):
        return {
            "counters": dict(self.counters),
            "distinct": sorted(self.distinct),
            "samples": self.samples,
            "violations": self.violations,
            "known": dict(self.known),
            "cases": self.cases,
        }


def load_known(prop):
    path = os.path.join(ROOT, "known_findings.json")
    try:
        with open(path) as f:
            table = json.load(f)
    except FileNotFoundError:
        return []
    return [
        e
        for e in table.get("findings", [])
        if e["property"] == prop and e.get("status") == "known"
    ]


def case_rng(seed, prop, idx) -> random.Random:
    return random.Random(stable_seed(seed, prop, idx))


def run_shard(mod, prop, tier, seed, shard, nshards, cap_s):
    """Run this shard's cases; returns the dumped context."""
    ctx = Ctx(prop, tier, seed, shard, nshards)
    start = time.monotonic()
    setup = getattr(mod, "setup", None)
    if setup:
        setup(ctx)
    total = mod.COUNT[tier]
    fixed = list(mod.corner_cases(tier)) if hasattr(mod, "corner_cases") else []
    planned = done = 0
    for idx in range(len(fixed) + total):
        if idx % nshards != shard:
            continue
        planned += 1
        if time.monotonic() - start > cap_s:
            continue
        if idx < len(fixed):
            spec = dict(fixed[idx])
            spec.setdefault("ds", idx)
        else:
            spec = mod.generate(case_rng(seed, prop, idx - len(fixed)), idx - len(fixed), tier)
        if spec is None:
            continue
        spec["idx"] = idx
        ctx.run_case(mod.case, spec)
        done += 1
    finish = getattr(mod, "finish", None)
    if finish:
        try:
            finish(ctx)
        except Violation as v:
            ctx.add_violation(v, {"finish": True})
    out = ctx.dump()
    out["planned"] = planned
    out["done"] = done
    out["wall_s"] = time.monotonic() - start
    return out


def eprint(*a):
    print(*a, file=sys.stderr, flush=True)
