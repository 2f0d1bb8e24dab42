"""Worker process: lists the units of a check, or runs one of them."""
import importlib
import json
import os
import random
import sys
import time
import traceback


class Recorder:
    """What the monitors of one unit observed."""

    def __init__(self, unit, tier, seed):
        self.unit = unit
        self.tier = tier
        self.quick = tier == "quick"
        self.seed = seed
        self.t0 = time.monotonic()
        self.evaluations = 0
        self._distinct = set()
        self.counters = {}
        self.samples = []
        self.violations = []
        self.inconclusive = []
        self.rng = random.Random(f"{seed}:{unit['name']}")

    def loop(self, n, budget=None):
        """range(n), ending early once this unit has used its time budget."""
        if budget is None:
            budget = 9 if self.quick else 300
        for i in range(n):
            if time.monotonic() - self.t0 > budget:
                self.count("loops_cut_short")
                return
            yield i

    def observed(self, key=None, n=1):
        """One evaluated case; `key` identifies it if it was non-trivial."""
        self.evaluations += n
        if key is not None and len(self._distinct) < 500_000:
            self._distinct.add(hash(key))

    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + n

    def sample(self, **kw):
        if len(self.samples) < 6:
            self.samples.append({k: repr(v)[:300] for k, v in kw.items()})

    def violation(self, sig, msg, **detail):
        self.count("violations")
        if sum(v["sig"] == sig for v in self.violations) < 2 and len(self.violations) < 50:
            self.violations.append(
                dict(sig=sig, msg=str(msg)[:3000],
                     detail={k: repr(v)[:1500] for k, v in detail.items()})
            )

    def check(self, cond, sig, msg="", **detail):
        if not cond:
            self.violation(sig, msg() if callable(msg) else msg, **detail)
        return cond

    def dump(self):
        return dict(
            evaluations=self.evaluations, distinct=len(self._distinct),
            counters=self.counters, samples=self.samples, violations=self.violations,
            inconclusive=self.inconclusive,
        )


def innermost_is_hypothesis(exc):
    """Is the innermost relevant frame of this traceback in the code under test?"""
    tb = exc.__traceback__
    last = None
    while tb is not None:
        fn = tb.tb_frame.f_code.co_filename
        if "/hypothesis-python/src/" in fn:
            last = True
        elif "/verif/" in fn or "/checks/" in fn:
            last = False
        tb = tb.tb_next
    return bool(last)


def internal_error_sig(exc):
    tb = exc.__traceback__
    name = "?"
    while tb is not None:
        if "/hypothesis-python/src/" in tb.tb_frame.f_code.co_filename:
            name = tb.tb_frame.f_code.co_name
        tb = tb.tb_next
    return f"internal-error:{type(exc).__name__}:{name}"


def main():
    cid = sys.argv[1]
    mod = importlib.import_module(f"checks.{cid.lower()}")
    if sys.argv[2] == "--list":
        tier, seed = sys.argv[3], int(sys.argv[4])
        units = mod.units(tier, seed)
        names = [u["name"] for u in units]
        assert len(set(names)) == len(names), "duplicate unit names"
        print(json.dumps(dict(units=units, info=mod.INFO)))
        return
    spec = json.load(open(sys.argv[3]))
    rec = Recorder(spec["unit"], spec["tier"], spec["seed"])
    random.seed(f"{spec['seed']}:{spec['unit']['name']}")
    import hypothesis.core

    # runs without @seed draw from this; make them repeatable too
    hypothesis.core._hypothesis_global_random = random.Random(random.getrandbits(64))
    try:
        mod.run(spec["unit"], rec)
    except MemoryError:
        rec.inconclusive.append("MemoryError")
    except BaseException as e:
        text = traceback.format_exc()
        if innermost_is_hypothesis(e):
            rec.violation(
                internal_error_sig(e),
                f"the code under test failed internally: {text[-2500:]}",
            )
        else:
            rec.inconclusive.append(f"harness error: {text[-3000:]}")
    tmp = sys.argv[4] + ".tmp"
    with open(tmp, "w") as f:
        json.dump(rec.dump(), f)
    os.replace(tmp, sys.argv[4])
    sys.stdout.flush()
    os._exit(0)


if __name__ == "__main__":
    main()
