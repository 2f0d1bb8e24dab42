"""C20: the engine keeps the example database truthful over runs, crashes and corruption."""
import multiprocessing
import os
import shutil
import tempfile
import time

from hypothesis import Phase, given, strategies as st
from hypothesis.database import (
    DirectoryBasedExampleDatabase, InMemoryExampleDatabase, choices_from_bytes, choices_to_bytes,
)
from hypothesis.errors import Unsatisfiable

from hv.programs import Program, failures, leaves, run_for
from hv.trees import Node, leaf, tree
from hv.util import HvFail, S, call, captured, mutate_choices, random_choices, stable_hash

INFO = dict(
    technique="runtime monitoring: a recording database snapshots its state at every operation of a run (so, at every point a "
              "process may die); each snapshot must hold an input seen to fail, and later runs from it, or after the test was "
              "repaired, corrupted, interrupted or killed, are compared with the rules",
    level="fault_injection",
    rule="One evaluation = one database state checked or one later run. Non-trivial = distinct (program, state, kind of run).",
    floors={"runs": 60, "snapshots": 1500, "next_runs": 60, "junk_runs": 30, "repairs": 15, "interrupts": 20, "kills": 8},
)
KINDS = ["hist0", "hist1", "hist2", "repair0", "repair1", "repair2", "junk0", "kill0", "kill1"]
FAST = [Phase.explicit, Phase.reuse, Phase.generate, Phase.target, Phase.shrink]


def units(tier, seed):
    reps = 1 if tier == "quick" else 10
    return [dict(name=f"{k}-{i}", kind=k, timeout=800) for i in range(reps) for k in KINDS]


def part(key):
    return "secondary" if key.endswith(b".secondary") else "pareto" if key.endswith(b".pareto") else "primary"


class TraceDB(InMemoryExampleDatabase):
    """Remembers what it held after each operation."""

    def __init__(self, data=None):
        super().__init__()
        for k, vs in (data or {}).items():
            self.data[k] = set(vs)
        self.snaps = []
        self.ops = []
        self.clock = lambda: 0

    def snap(self):
        self.snaps.append((self.clock(), self.copy()))

    def copy(self):
        return {k: frozenset(v) for k, v in self.data.items()}

    def save(self, key, value):
        super().save(key, value)
        self.ops.append(("save", part(key), value))
        self.snap()

    def delete(self, key, value):
        super().delete(key, value)
        self.ops.append(("delete", part(key), value))
        self.snap()

    def move(self, src, dest, value):
        self.ops.append(("move", part(src), value))
        InMemoryExampleDatabase.delete(self, src, value)
        InMemoryExampleDatabase.save(self, dest, value)
        self.snap()

    def fetch(self, key):
        self.ops.append(("fetch", part(key), None))
        return super().fetch(key)

    def get(self, name):
        return set().union(*(v for k, v in self.data.items() if part(k) == name))


def held(data, *names):
    return set().union(*(v for k, v in data.items() if part(k) in names))


def shortlex(b):
    return (len(b), b)


def program(rng, infinite=False, **kw):
    kw.setdefault("depth", rng.choice([0, 0, 1]))
    kw.setdefault("nargs", rng.choice([1, 2]))
    kw.setdefault("interactive", rng.choice([0, 0, 2]))
    kw.setdefault("nfail", rng.choice([1, 2, 3]))
    kw.setdefault("fail", rng.choice([0.02, 0.1, 0.3, 0.9]))
    kw.setdefault("targets", rng.choice([0, 0, 0, 1]))
    p = Program(rng, **kw)
    if infinite:
        # (a run which has tried everything ends at once)
        p.nodes.append(leaf(rng, False))
        while not p.nodes[-1].desc.startswith(("integers()", "binary()", "text()")):
            p.nodes[-1] = leaf(rng, False)
    return p


def enc(ex):
    return choices_to_bytes(ex.choices)


def run(unit, rec):
    globals()["k_" + unit["kind"].rstrip("0123456789")](rec)


def k_hist(rec):
    rng = rec.rng
    for _ in rec.loop(60 if rec.quick else 3000):
        prog = program(rng)
        log = []
        db = TraceDB()
        db.clock = lambda: len(log)
        multi = rng.random() < 0.7
        phases = rng.choice([FAST, FAST, [Phase.reuse, Phase.generate, Phase.target], [Phase.generate, Phase.shrink]])
        kw = dict(max_examples=rng.choice([20, 60]), report_multiple_bugs=multi, phases=phases)
        t = prog.make(log, lambda f: settle(f, dict(kw, database=None)), name="test")
        t = prog_with(t, kw, db)
        o = run_for(2 if rec.quick else 30, t)
        if o is None:
            rec.count("slow")
            continue
        rec.count("runs")
        ctx = f"{prog.desc} {kw}"
        if not failures(log):
            rec.check(not db.get("primary") and not db.get("secondary"), "stored-passing", f"{ctx}: holds {db.data} though nothing failed")
            continue
        first = next(i for i, x in enumerate(log) if x.out == "fail") + 1
        # every point at which the process might have died
        failing = set()
        at = 0
        for clock, data in db.snaps:
            while at < min(clock, len(log)):
                if log[at].out == "fail":
                    failing.add(enc(log[at]))
                at += 1
            rec.count("snapshots")
            if clock <= first:
                # (nothing has failed, or the engine is only just dealing with it)
                continue
            if not rec.check(failing & held(data, "primary", "secondary"), "nothing-failing-stored",
                             f"{ctx}: after {clock} executions the database holds no input seen to fail: "
                             f"{[choices_from_bytes(b) for b in held(data, 'primary', 'secondary')][:4]}; operations {db.ops[-6:]}"):
                break
        rec.observed((ctx, len(db.snaps)), n=len(db.snaps))
        rec.check(any(c == first for c, d in db.snaps if held(d, "primary")), "not-at-once",
                  f"{ctx}: the first failure, at execution {first}, was not stored before the next execution: {[c for c, _ in db.snaps][:5]}")
        if o.exc is None:
            rec.violation("lost", f"{ctx}: {len(log)} executions, some failing, and the run passes")
            continue
        # what is reported is stored
        prim = db.get("primary")
        finals = {}
        for e in leaves(o.exc, log):
            for x in log:
                if x.exc is e:
                    finals[x.origin] = enc(x)
        for origin, b in finals.items():
            rec.check(b in prim, "reported-not-stored", f"{ctx}: reported {choices_from_bytes(b)} for {origin}, stored "
                      f"{[choices_from_bytes(x) for x in prim][:4]}")
        bad = prim - {enc(x) for x in log if x.out == "fail"}
        rec.check(not bad, "stored-not-failing", f"{ctx}: stored {[choices_from_bytes(b) for b in bad][:3]}, never seen to fail")
        if Phase.shrink in phases and multi:
            # one entry for each failure found
            rec.check(len(prim) == len(failures(log)), "entries", f"{ctx}: {len(prim)} entries for {len(failures(log))} failures")
        # --- the next run, from this state or any earlier one
        states = [db.copy()]
        cand = [d for c, d in db.snaps if c >= first and held(d, "primary", "secondary")]
        states += rng.sample(cand, min(len(cand), 3))
        for i, data in enumerate(states):
            nxt(rec, rng, prog, data, kw, ctx, final=i == 0, fails=set(failures(log)))


def settle(f, kw):
    return S(**kw)(f)


def prog_with(t, kw, db):
    """The same test with another database."""
    t._hypothesis_internal_use_settings = S(**dict(kw, database=db))
    return t


def nxt(rec, rng, prog, data, kw, ctx, final, fails):
    log = []
    db = TraceDB(data)
    db.clock = lambda: len(log)
    phases = rng.choice([FAST, [Phase.reuse], [Phase.reuse, Phase.generate]])
    kw = dict(kw, phases=phases)
    t = prog_with(prog.make(log, lambda f: settle(f, dict(kw, database=None)), name="test"), kw, db)
    o = run_for(2 if rec.quick else 30, t)
    if o is None:
        rec.count("slow")
        return
    rec.count("next_runs")
    prim, sec = held(data, "primary"), held(data, "secondary")
    ctx = f"{ctx}, next run with {[p.name for p in phases]} from {[choices_from_bytes(b) for b in sorted(prim, key=shortlex)][:4]}"
    rec.observed((ctx, len(sec)))
    if not rec.check(bool(log), "nothing-run", f"{ctx}: no executions ({o.exc!r})"):
        return
    rec.check(o.exc is not None and not isinstance(o.exc, Unsatisfiable), "passes-next", f"{ctx}: {o.exc!r}, first ran {log[0]}")
    rec.check(log[0].out == "fail", "first-not-failing", f"{ctx}: the first execution is {log[0]}")
    stored = sorted(prim, key=shortlex)
    k = len(stored) if kw["report_multiple_bugs"] else min(1, len(stored))
    ran = [enc(x) for x in log[:k]]
    rec.check(ran == stored[:k], "stored-first", f"{ctx}: first ran {[choices_from_bytes(b) for b in ran]}")
    if stored:
        # all of them fail exactly as stored: nothing else is tried
        extra = {enc(x) for x in log} - prim
        rec.check(not extra, "more-than-stored", f"{ctx}: ran {[choices_from_bytes(b) for b in extra][:3]} as well")
        rec.check(all(b in db.get("primary") for b in prim), "failing-removed", f"{ctx}: removed entries which still fail: {db.ops}")
    if final and kw["report_multiple_bugs"]:
        rec.check({x.origin for x in log if x.out == "fail"} >= fails, "failures-lost", f"{ctx}: had {fails}, now "
                  f"{set(failures(log))}")


def k_repair(rec):
    """Once the test no longer fails on stored inputs they go."""
    rng = rec.rng
    for _ in rec.loop(40 if rec.quick else 2000):
        prog = program(rng, infinite=True, rejectp=0)
        log = []
        db = TraceDB()
        kw = dict(max_examples=rng.choice([10, 30, 100]), phases=FAST)
        t = prog_with(prog.make(log, lambda f: settle(f, dict(kw, database=None)), name="test"), kw, db)
        if (o := run_for(2 if rec.quick else 30, t)) is None or o.exc is None:
            continue
        ctx = f"{prog.desc} {kw}"
        how = rng.choice(["passes", "rejects", "other", "shape", "long", "long"])
        if how == "passes":
            prog.failp = 0
        elif how == "rejects":
            prog.rejectp, prog.failp = 1, 0
        elif how == "other":
            prog.salt += 1
        elif how == "long":
            # the same key, but the test now draws more than it may
            prog.nodes[rng.randrange(len(prog.nodes))] = Node(st.lists(st.binary(min_size=3000, max_size=3000), min_size=4), lambda v: None, "long", None)
            prog.failp = 0
        else:
            # the same key, but the test now draws something else
            prog.nodes[:-1] = [tree(rng, 1) for _ in prog.nodes[:-1]]
            prog.failp = 0
        for which in ("primary", "secondary"):
            # and there may be many of them
            k = next((k for k in db.data if part(k) == which), None)
            if k is not None and rng.random() < 0.4:
                db.data[k] |= {choices_to_bytes(random_choices(rng, 3)) for _ in range(12)}
        rec.count("repairs")
        n0 = len(db.get("primary") | db.get("secondary"))
        n_prim = len(db.get("primary"))
        n_sec = len(db.get("secondary"))
        phases = rng.choice([[Phase.reuse], [Phase.reuse, Phase.generate], FAST])
        if how == "long" and rng.random() < 0.8:
            phases = [Phase.reuse]
        kw = dict(kw, phases=phases)
        factor = 0.1 if Phase.generate in phases else 1
        want_runs = 2 + n_prim // kw["max_examples"] + int(n_sec / max(2, factor * kw["max_examples"]) * 1.01 + 1) if how != "other" else 3
        if want_runs > 15:
            continue
        for r in range(want_runs):
            log.clear()
            before = db.get("primary")
            t = prog_with(prog.make(log, lambda f: settle(f, dict(kw, database=None)), name="test"), kw, db)
            o = run_for(2 if rec.quick else 30, t)
            if o is None or time.monotonic() - rec.t0 > (14 if rec.quick else 400):
                o = None
                break
            now = {enc(x): x.out for x in log}
            stale = {b for b in db.get("primary") if now.get(b, "fail") != "fail"}
            rec.check(not stale, "kept-passing", f"{ctx}, then {how}: still primary after run {r}: {[choices_from_bytes(b) for b in stale][:3]}")
            if how != "other":
                rec.check(not db.get("primary") or (r + 1) * kw["max_examples"] < n_prim, "primary-kept", f"{ctx}, then {how}: primary after run {r} with {[p.name for p in phases]}: "
                          f"{[choices_from_bytes(b) for b in db.get('primary')][:3]} (of {len(before)})")
                if phases != [Phase.reuse] and how == "passes":
                    rec.check(o.exc is None, "still-failing", f"{ctx}: {o.exc!r}")
            else:
                seen = {x.origin for x in log if x.out == "fail"}
                rec.check((o.exc is not None and not isinstance(o.exc, (Unsatisfiable, __import__("unittest").SkipTest))) == bool(seen),
                          "outcome", f"{ctx}: {o.exc!r}, saw {seen}")
            rec.observed((ctx, how, r))
        if o is None:
            continue
        if how != "other":
            left = db.get("primary") | db.get("secondary")
            rec.check(not left, "not-converged", f"{ctx}, then {how}: of {n0} entries {len(left)} are left after {want_runs} runs with "
                      f"{[p.name for p in phases]}: {[choices_from_bytes(b) for b in left][:3]}")


JUNK = [b"", b"\xff", b"\xff\xff\xff\xff", b"\x3f" + b"\xff" * 12, b"\x28abc", b"\x9f\x05abc", b"\xa0", b"\x81\xff", b"\x21\x00", b"\x00" * 500,
        b"\x01" * 300, b"\x5f\xff\xff\xff\xff\x7f", b"not an entry at all", "é".encode(), b"\x20", b"\x5f" + b"\x80" * 50]


def k_junk(rec):
    rng = rec.rng
    for _ in rec.loop(150 if rec.quick else 5000):
        prog = program(rng, infinite=True, fail=rng.choice([0, 0, 0.3, 1.0]))
        log = []
        db = TraceDB()
        kw = dict(max_examples=rng.choice([10, 40]), phases=rng.choice([FAST, [Phase.reuse, Phase.generate]]))
        mk = lambda: prog_with(prog.make(log, lambda f: settle(f, dict(kw, database=None)), name="test"), kw, db)  # noqa
        if (o := run_for(2 if rec.quick else 30, mk())) is None:
            continue
        ctx = f"{prog.desc} {kw}"
        key = next((k for op in [1] for k in fetched(prog, kw)), None)
        mine = db.get("primary")
        failing = {x.origin for x in log if x.out == "fail"}
        junk = {}
        for sub in (b"", b".secondary", b".pareto"):
            n = rng.choice([0, 1, 5, 12])
            js = set()
            for _ in range(n):
                r = rng.random()
                js.add(rng.choice(JUNK) if r < 0.4 else rng.randbytes(rng.randrange(40)) if r < 0.6 else
                       choices_to_bytes(random_choices(rng)) if r < 0.8 or not mine else
                       choices_to_bytes(mutate_choices(rng, choices_from_bytes(rng.choice(sorted(mine))))))
            junk[sub] = js
            db.data.setdefault(key + sub, set()).update(js)
        log.clear()
        runs = 3 + int(len(junk[b".secondary"]) / 2) + int((len(junk[b""]) + len(mine)) / kw["max_examples"]) if rng.random() < 0.3 else 1
        for r in range(runs):
            log.clear()
            o = run_for(2 if rec.quick else 30, mk())
            if o is None:
                break
            rec.count("junk_runs")
            rec.observed((ctx, r, len(junk[b""])))
            now = {x.origin for x in log if x.out == "fail"}
            if now:
                good = o.exc is not None and all(any(x.exc is e for x in log) for e in leaves(o.exc, log))
                rec.check(good, "outcome", f"{ctx} with junk {junk}: saw {now}, ended with {o.exc!r}")
            elif o.exc is not None:
                rec.check(isinstance(o.exc, Unsatisfiable) and not any(x.out == "pass" for x in log), "outcome",
                          f"{ctx} with junk {junk}: {o.exc!r}")
            rec.check(not failing or now, "failure-lost", f"{ctx} with junk {junk}: failed before with {failing}, now passes")
            few = len(junk[b""]) + len(mine) < kw["max_examples"] or (r + 1) * kw["max_examples"] > len(junk[b""]) + len(mine) + 5
            gone = [b for b in junk[b""] if few and choices_from_bytes(b) is None and b in db.data[key]]
            rec.check(not gone, "junk-kept", f"{ctx}: undecodable entries {gone[:3]} still primary")
        if o is not None and runs > 1 and not failing and not any(x.out == "fail" for x in log):
            kept = [b for b in junk[b".secondary"] if b in db.data.get(key + b".secondary", ())]
            rec.check(not kept, "junk-kept-secondary", f"{ctx}: {kept[:3]} still in the secondary corpus after {runs} runs")


def fetched(prog, kw):
    """The key under which this test looks for its entries."""
    keys = []

    class Spy(InMemoryExampleDatabase):
        def fetch(self, key):
            keys.append(key)
            return ()
    t = prog.make([], lambda f: settle(f, dict(kw, phases=[Phase.reuse], database=Spy())), name="test")
    call(t)
    return [k for k in keys if part(k) == "primary"][:1]


class Stop(BaseException):
    pass


def k_kill(rec):
    """Runs which end by an interrupt, or with the process."""
    rng = rec.rng
    ctx_ = multiprocessing.get_context("fork")
    for i in rec.loop(60 if rec.quick else 2000):
        prog = program(rng, fail=rng.choice([0.1, 0.3, 0.9]))
        log = []
        kw = dict(max_examples=40, phases=FAST, report_multiple_bugs=rng.random() < 0.7)
        after = rng.choice([0, 1, 2, 5, 20, 60])
        plain = not prog.interactive and not prog.randoms
        die = rng.choice([KeyboardInterrupt, Stop] if plain else [KeyboardInterrupt]) if i % 4 else None
        seen = [0]
        body = prog.body

        def counted(log_, args, data, rnd):
            if any(x.out == "fail" for x in log_[:200]) or seen[0]:
                seen[0] += 1
                if seen[0] > after:
                    if die is None:
                        os._exit(0)
                    raise die
            return body(log_, args, data, rnd)
        prog.body = counted
        ctx = f"{prog.desc} {kw}, ended {after} executions after the first failure by {die}"
        if die is None:
            d = tempfile.mkdtemp(prefix="hv20-")
            try:
                db = DirectoryBasedExampleDatabase(d)

                def child():
                    with captured():
                        prog_with(prog.make(log, lambda f: settle(f, dict(kw, database=None)), name="test"), kw, db)()
                p = ctx_.Process(target=quiet, args=(child,))
                p.start()
                p.join(6 if rec.quick else 60)
                if p.is_alive():
                    p.kill()
                    p.join()
                data = {}
                for key in fetched(prog, kw):
                    for sub in (b"", b".secondary"):
                        data[key + sub] = set(DirectoryBasedExampleDatabase(d).fetch(key + sub))
            finally:
                shutil.rmtree(d, ignore_errors=True)
            prog.body = body
            if not held(data, "primary", "secondary"):
                # (nothing failed, or we could not say)
                o = run_for(3, prog.make(log, lambda f: settle(f, dict(kw, phases=[Phase.generate])), name="test"))
                rec.count("nothing_stored")
                continue
            rec.count("kills")
            nxt(rec, rng, prog, data, kw, ctx, final=False, fails=set())
        else:
            db = TraceDB()
            o = run_for(2 if rec.quick else 30, prog_with(prog.make(log, lambda f: settle(f, dict(kw, database=None)), name="test"), kw, db))
            if o is None:
                continue
            prog.body = body
            if not seen[0]:
                continue
            if seen[0] > after:
                rec.count("interrupts")
                rec.check(isinstance(o.exc, die), "interrupt-lost", f"{ctx}: ended with {"".join(__import__("traceback").format_exception(o.exc))[-1500:]}")
            data = db.copy()
            failing = {enc(x) for x in log if x.out == "fail"}
            if rec.check(failing & held(data, "primary", "secondary"), "nothing-after-interrupt", f"{ctx}: {db.ops[-5:]}") and die is KeyboardInterrupt:
                # (what ends in another way is stored as if it had failed)
                nxt(rec, rng, prog, data, kw, ctx, final=False, fails=set())


def quiet(f):
    try:
        f()
    except BaseException:  # noqa
        pass
    os._exit(0)
