"""C08: a recorded failure replays exactly."""
import base64
import json
import os
import random
import re
import subprocess
import sys
import unittest

import hypothesis
from hypothesis import Phase, find, given, reproduce_failure, settings, strategies as st
from hypothesis.core import decode_failure, encode_failure
from hypothesis.database import InMemoryExampleDatabase, choices_from_bytes, choices_to_bytes
from hypothesis.errors import DidNotReproduce, InvalidArgument, NoSuchExample

from hv.programs import Program, failures, leaves, run_for, text
from hv.trees import canon
from hv.util import FeedDatabase, HvFail, S, call, random_choices
from checks.c09 import exact

INFO = dict(
    technique="runtime monitoring: every execution of random deterministic programs is logged, and the logs of the "
              "recording run, of the database replay, of the printed blob's replay and of the final report are compared",
    level="exploration",
    rule="One evaluation = one recorded failure replayed by one route, or one blob decoded. Non-trivial = "
         "distinct (drawn values, outcome) of a replayed failure.",
    floors={"recorded": 40, "blob_replays": 40, "db_replays": 40, "blobs": 2000, "bad_blobs": 300, "cross_process": 5},
)
KINDS = ["prog0", "prog1", "prog2", "prog3", "prog4", "prog5", "blob", "bad", "process"]
BLOB = re.compile(r"@reproduce_failure\('([^']*)', (b'[^']*')\)")


def units(tier, seed):
    reps = 1 if tier == "quick" else 10
    return [dict(name=f"{k}-{i}", kind=k, timeout=800) for i in range(reps) for k in KINDS]


def notes_of(exc, out):
    todo, seen = [exc], []
    while todo:
        e = todo.pop()
        seen.extend(getattr(e, "__notes__", ()))
        if isinstance(e, BaseExceptionGroup):
            todo.extend(e.exceptions)
    return "\n".join([out, *seen])


def program(rng):
    return Program(rng, nfail=rng.choice([1, 1, 1, 2, 3]), globalrandom=rng.random() < 0.3)


def record(prog, sd, db, n=40, **kw):
    log = []
    t = prog.make(log, S(max_examples=n, database=db, print_blob=True, **kw), sd)
    return run_for(2.5, t), log


def k_prog(rec):
    rng = rec.rng
    for _ in rec.loop(120 if rec.quick else 4000):
        prog = program(rng)
        db = InMemoryExampleDatabase()
        multi = rng.random() < 0.7
        o, log = record(prog, rng.getrandbits(30), db, report_multiple_bugs=multi)
        if o is None:
            rec.count("slow_programs")
            continue
        rec.count("programs")
        fs = failures(log)
        if not fs:
            rec.check(o.exc is None or type(o.exc).__name__ == "Unsatisfiable", "unexpected", f"{prog.desc}: {o.exc!r}")
            continue
        rec.count("recorded")
        rep = leaves(o.exc, log)
        blobs = BLOB.findall(notes_of(o.exc, o.out))
        rec.check(len(blobs) == len(rep), "blob-missing", f"{prog.desc}: {len(rep)} failures, {len(blobs)} blobs; {o.exc!r}")
        finals = []
        for e in rep:
            mine = [ex for ex in log if ex.exc is e]
            if not rec.check(len(mine) == 1, "not-real", f"{prog.desc}: {e!r} was raised by {len(mine)} executions"):
                continue
            fin = mine[0]
            finals.append(fin)
            i = log.index(fin)
            # the final execution repeats one which was seen before
            again = [x for j, x in enumerate(log) if x is not fin and x.vals == fin.vals]
            rec.check(again, "final-differs", f"{prog.desc}: the final execution {fin} repeats none before it")
            for x in again:
                rec.check(x.out == fin.out and x.origin == fin.origin, "outcome-differs", f"{x} {fin}")
            rec.observed((text(fin.vals), fin.origin))
        # --- the printed blobs
        got = []
        stored = {e for es in db.data.values() for e in es} if hasattr(db, "data") else set()
        for version, blob in blobs:
            blob = eval(blob)
            rec.check(version == hypothesis.__version__, "blob-version", version)
            choices = decode_failure(blob)
            rec.check(encode_failure(choices) == blob, "blob-encoding", repr(blob))
            if stored:
                rec.check(choices_to_bytes(choices) in stored, "blob-not-recorded", f"{prog.desc}: {choices!r} was not saved")
            log2 = []
            o2 = call(prog.make(log2, S(print_blob=False), None, decorate=reproduce_failure(version, blob)))
            rec.count("blob_replays")
            rec.observed()
            if not rec.check(len(log2) == 1 and log2[0].out == "fail" and o2.exc is log2[0].exc, "blob-no-failure",
                             f"{prog.desc}: {blob!r} gave {log2} and {o2.exc!r}"):
                continue
            got.append(log2[0])
        want = sorted((text(f.vals), repr(f.origin), str(f.exc)) for f in finals)
        have = sorted((text(f.vals), repr(f.origin), str(f.exc)) for f in got)
        rec.check(want == have, "blob-differs", f"{prog.desc}:\nreported {want}\nreplayed {have}")
        # --- the database, in a test with a fresh log
        log3 = []
        o3 = call(prog.make(log3, S(database=db, phases=[Phase.reuse], report_multiple_bugs=multi), None))
        rec.count("db_replays")
        rec.observed()
        seen = {(text(x.vals), x.out) for x in log3}
        missing = [f for f in finals if (text(f.vals), "fail") not in seen]
        if multi or len(rep) == 1 == len(fs):
            rec.check(not missing, "db-differs", f"{prog.desc}: {missing} were not among the replayed {log3}")
        else:
            # with one bug per run the entries after the first which fails need not be tried, and that is the one with the shortest encoding
            known = {text(x.vals) for x in log if x.out == "fail"}
            rec.check(any(x.out == "fail" and text(x.vals) in known for x in log3), "db-differs", f"{prog.desc}: none of {fs} was among the replayed {log3}")
        rec.check(o3.exc is not None and type(o3.exc) is not unittest.SkipTest, "db-passes", f"{prog.desc}: {o3.exc!r}")
        # --- entries one by one: each gives what some execution of the recording run had
        known = {(text(x.vals), x.out) for x in log}
        for e in stored:
            log4 = []
            call(prog.make(log4, S(database=FeedDatabase([e]), phases=[Phase.reuse]), None))
            rec.count("db_replays")
            rec.observed()
            for x in log4:
                rec.check((text(x.vals), x.out) in known, "entry-unseen",
                          f"{prog.desc}: entry {choices_from_bytes(e)} gives {x}, which never ran")
        rec.sample(program=prog.desc, final=finals[:1])
    # find() with a database key
    for _ in range(10):
        db = InMemoryExampleDatabase()
        m = rng.randrange(2, 50)
        s = rng.choice([st.integers(), st.lists(st.integers()).map(len), st.floats(0, 100).map(int)])
        seen = []
        try:
            a = find(s, lambda v: v >= m, settings=S(database=db, max_examples=500), database_key=b"k")
        except NoSuchExample:
            continue
        b = find(s, lambda v: seen.append(v) or v >= m, settings=S(database=db, phases=[Phase.reuse]), database_key=b"k")
        rec.check(a == b, "find-differs", f"{a} then {b}")


def k_blob(rec):
    rng = rec.rng
    for _ in rec.loop(20_000 if rec.quick else 500_000):
        c = tuple(random_choices(rng))
        if rng.random() < 0.1:
            c = c * 20
        b = encode_failure(c)
        rec.count("blobs")
        rec.observed(b)
        if exact(decode_failure(b)) != exact(c):
            rec.violation("blob-roundtrip", f"{c!r} came back as {decode_failure(b)!r}")
        # the text in the report evaluates to the same bytes
        if eval(repr(b)) != b or not re.fullmatch(rb"[A-Za-z0-9+/=]*", b):
            rec.violation("blob-text", repr(b))


def k_bad(rec):
    """Whatever the blob, the decorated test never passes."""
    rng = rec.rng
    V = hypothesis.__version__

    def run(blob, version, strat, behave):
        ran = []

        @S()
        @reproduce_failure(version, blob)
        @given(strat)
        def t(v):
            ran.append(v)
            behave(v)
        return call(t), ran

    def passing(v):
        pass

    def rejecting(v):
        hypothesis.assume(False)

    def failing(v):
        raise HvFail

    strats = [st.integers(), st.text(), st.lists(st.integers() | st.booleans()), st.floats(), st.none(),
              st.integers(0, 3), st.lists(st.integers(), min_size=3)]
    for _ in rec.loop(2500 if rec.quick else 60_000):
        s = rng.choice(strats)
        c = random_choices(rng)
        good = encode_failure(c)
        blob = bytearray(good)
        k = rng.randrange(6)
        corrupt = True
        if k == 0:
            corrupt = False
        elif k == 1:
            blob = blob[: rng.randrange(len(blob))]
        elif k == 2:
            blob[rng.randrange(len(blob))] = rng.randrange(256)
        elif k == 3:
            raw = bytearray(base64.b64decode(good))
            raw[rng.randrange(len(raw))] = rng.randrange(256)
            blob = base64.b64encode(bytes(raw))
        elif k == 4:
            blob = base64.b64encode(rng.randbytes(rng.randrange(20)))
        else:
            blob = rng.randbytes(rng.randrange(20))
        blob = bytes(blob)
        version = V if rng.random() < 0.9 else rng.choice(["", "1.0", V + "0", V[:-1], None, "99.0.0"])
        behave = rng.choice([passing, passing, rejecting, failing])
        o, ran = run(blob, version, s, behave)
        rec.count("bad_blobs" if corrupt or behave is not failing or version != V else "good_blobs")
        rec.observed((blob, version))
        if version != V:
            rec.check(isinstance(o.exc, InvalidArgument) and not ran, "version-accepted", f"{version!r}: {o.exc!r}, ran {ran}")
            continue
        if len(ran) > 1:
            rec.violation("runs-more", f"{blob!r} ran the test {len(ran)} times")
        if behave is failing and ran:
            rec.check(isinstance(o.exc, HvFail), "failure-lost", f"{blob!r}: {o.exc!r}")
        elif ran:
            rec.check(isinstance(o.exc, DidNotReproduce), "silent-pass", f"{blob!r} {s!r} {behave.__name__}: {o.exc!r}")
        else:
            rec.check(isinstance(o.exc, (DidNotReproduce, InvalidArgument)), "silent-pass", f"{blob!r} {s!r}: {o.exc!r}")
        if blob == good and not ran:
            rec.check(isinstance(o.exc, DidNotReproduce), "good-blob-invalid", f"{blob!r} {s!r}: {o.exc!r}")


CHILD = """
import json, random, sys
from checks.c08 import program, record
from hypothesis import reproduce_failure
import hypothesis
from hv.util import S, call
from hv.programs import text
out = []
for sd, blob in json.load(sys.stdin):
    prog = program(random.Random(sd))
    log = []
    o = call(prog.make(log, S(print_blob=False), None, decorate=reproduce_failure(hypothesis.__version__, blob.encode())))
    out.append([[text(x.vals), x.out, repr(x.origin), str(x.exc)] for x in log])
print(json.dumps(out))
"""


def k_process(rec):
    """The blob replays the same in another process, with another hash seed."""
    rng = rec.rng
    for _ in rec.loop(2 if rec.quick else 40):
        todo, want = [], []
        for _ in range(15):
            sd = rng.getrandbits(40)
            prog = program(random.Random(sd))
            o, log = record(prog, rng.getrandbits(30), None)
            if o is None or not failures(log):
                continue
            for e in leaves(o.exc, log):
                fin = next(x for x in log if x.exc is e)
                for version, blob in BLOB.findall("\n".join(getattr(e, "__notes__", ())) if len(leaves(o.exc, log)) > 1
                                                  else notes_of(o.exc, o.out)):
                    todo.append([sd, eval(blob).decode()])
                    want.append([[text(fin.vals), fin.out, repr(fin.origin), str(fin.exc)]])
        env = dict(os.environ, PYTHONHASHSEED=str(rng.randrange(2**32)))
        p = subprocess.run([sys.executable, "-c", CHILD], input=json.dumps(todo), capture_output=True, text=True, env=env,
                           timeout=300)
        if p.returncode:
            raise RuntimeError(p.stderr[-2000:])
        got = json.loads(p.stdout)
        for t, w, g in zip(todo, want, got):
            rec.count("cross_process")
            rec.observed(w[0][0])
            rec.check(w == g, "process-differs", f"{t}: {w} here, {g} there")


def run(unit, rec):
    globals()["k_" + unit["kind"].rstrip("0123456789")](rec)
