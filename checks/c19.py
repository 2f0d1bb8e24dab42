"""C19: example databases behave as maps from keys to sets of values."""
import json
import multiprocessing
import os
import random
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time
import zipfile
from collections import Counter
from datetime import datetime, timedelta, timezone
from pathlib import Path

from hypothesis.database import (
    BackgroundWriteDatabase, DirectoryBasedExampleDatabase, GitHubArtifactDatabase, InMemoryExampleDatabase,
    MultiplexedDatabase, ReadOnlyDatabase,
)

from hv.util import call

INFO = dict(
    technique="runtime monitoring: random operation sequences on random nestings of every database implementation, compared after "
              "each step with a key-to-set model; listener events compared with the model's changes; concurrent histories of threads "
              "and processes checked for lost, invented and torn values, with processes killed in the middle",
    level="exploration",
    rule="One evaluation = one operation sequence (or concurrent history) compared with the model. Non-trivial = distinct "
         "(database nesting, operations).",
    floors={"ops": 3000, "fetches": 3000, "events": 500, "values_seen": 20_000, "histories": 10, "kills": 5, "reopened": 50,
            "concurrent_fetches": 2000, "watched": 10},
)
KINDS = ["model0", "model1", "model2", "threads0", "procs0", "procs1", "kill0", "exit0", "watch0"]


def units(tier, seed):
    reps = 1 if tier == "quick" else 8
    return [dict(name=f"{k}-{i}", kind=k, timeout=800) for i in range(reps) for k in KINDS]


class Scratch:
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix="hv19-")
        return Path(self.d)

    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)


def rkey(rng):
    return rng.choice([b"", b"k", b"k.secondary", b"k.pareto", b"\0", b"../x", b"a/b", bytes(range(256)), b"k" * 5000,
                       rng.randbytes(3), b"key%d" % rng.randrange(4), b"K", b"k "])


def rvalue(rng):
    return rng.choice([b"", b"v", b"\0", b"v\0", b"../x", b"V", rng.randbytes(4), b"v%d" % rng.randrange(6), b"x" * rng.choice([100, 70_000]),
                       b"\n", b"\r\n", b"k"])


# ---------------------------------------------------------------- models

class Leaf:
    def __init__(self, db, kind):
        self.db, self.kind, self.data, self.listeners = db, kind, {}, []

    def apply(self, op, *a):
        if op == "move":
            src, dest, v = a
            if src == dest:
                self.apply("save", src, v)
            else:
                self.apply("delete", src, v)
                self.apply("save", dest, v)
            return
        k, v = a
        s = self.data.setdefault(k, set())
        if op == "save" and v not in s:
            s.add(v)
            self.tell(("save", (k, v)))
        elif op == "delete" and v in s:
            s.remove(v)
            self.tell(("delete", (k, v)))

    def tell(self, ev):
        for f in list(self.listeners):
            f(ev)

    def get(self, k):
        return set(self.data.get(k, ()))

    def leaves(self):
        return [self]

    def all(self):
        return [self]

    def on(self, f):
        self.listeners.append(f)

    desc = property(lambda self: self.kind)


class Wrap:
    """A read-only, multiplexing or deferring wrapper."""

    def __init__(self, db, kind, kids):
        self.db, self.kind, self.kids = db, kind, kids

    def apply(self, op, *a):
        if self.kind != "ro":
            for c in self.kids:
                c.apply(op, *a)

    def get(self, k):
        return set().union(*(c.get(k) for c in self.kids))

    def leaves(self):
        return [x for c in self.kids for x in c.leaves()]

    def all(self):
        return [self] + [x for c in self.kids for x in c.all()]

    def on(self, f):
        if self.kind != "ro":
            for c in self.kids:
                c.on(f)

    desc = property(lambda self: f"{self.kind}({', '.join(c.desc for c in self.kids)})")


def make_leaf(rng, tmp, memory_only):
    k = "mem" if memory_only else rng.choice(["mem", "dir", "dir", "redis"])
    if k == "mem":
        return Leaf(InMemoryExampleDatabase(), "mem")
    if k == "dir":
        p = tmp / f"d{rng.getrandbits(40)}"
        if rng.random() < 0.5:
            p = p / "deeper" / "path"
        if rng.random() < 0.5:
            p = str(p)
        return Leaf(DirectoryBasedExampleDatabase(p), "dir")
    import fakeredis

    from hypothesis.extra.redis import RedisExampleDatabase
    return Leaf(RedisExampleDatabase(fakeredis.FakeRedis(), key_prefix=rng.choice([b"", b"p:"])), "redis")


def make(rng, tmp, depth, memory_only=False):
    k = rng.choice(["leaf", "ro", "multi", "multi", "bg"]) if depth else "leaf"
    if k == "leaf":
        return make_leaf(rng, tmp, memory_only)
    if k == "multi":
        kids = [make(rng, tmp, depth - 1, memory_only) for _ in range(rng.choice([1, 2, 2, 3]))]
        return Wrap(MultiplexedDatabase(*[c.db for c in kids]), "multi", kids)
    kid = make(rng, tmp, depth - 1, memory_only)
    if k == "ro":
        return Wrap(ReadOnlyDatabase(kid.db), "ro", [kid])
    return Wrap(BackgroundWriteDatabase(kid.db), "bg", [kid])


def flush(root):
    # inner queues only fill once the outer ones are empty
    for n in root.all():
        if n.kind == "bg":
            list(n.db.fetch(b"nothing here"))


def k_model(rec):
    rng = rec.rng
    with Scratch() as tmp:
        for _ in rec.loop(400 if rec.quick else 12_000):
            memory_only = rng.random() < 0.5
            root = make(rng, tmp, rng.choice([0, 0, 1, 2, 3]), memory_only)
            nodes = root.all()
            got, want = [], []
            listening = memory_only and rng.random() < 0.7
            if listening:
                f = got.append
                root.db.add_listener(f)
                root.on(want.append)
            ops = []
            ctx = root.desc
            keys = [rkey(rng) for _ in range(4)] + [b"k"]
            vals = [rvalue(rng) for _ in range(5)]
            here = root
            for _ in range(rng.choice([5, 20, 60])):
                if rng.random() < 0.1:
                    flush(root)
                    here = rng.choice(nodes)
                k, v, k2 = rng.choice(keys), rng.choice(vals), rng.choice(keys)
                op = rng.choice(["save", "save", "delete", "move", "fetch"])
                ops.append((here.desc, op, k[:9], k2[:9] if op == "move" else v[:9]))
                rec.count("ops")
                if op == "fetch":
                    compare(rec, ctx, here, k, ops)
                else:
                    a = (k, k2, v) if op == "move" else (k, v)
                    o = call(getattr(here.db, op), *a)
                    rec.check(o.exc is None, "op-error", f"{ctx}: {op} on {here.desc} raised {o.exc!r}")
                    here.apply(op, *a)
            flush(root)
            for n in nodes:
                for k in keys:
                    compare(rec, ctx, n, k, ops)
            rec.observed(repr((ctx, ops)))
            if listening:
                rec.count("events", len(got))
                # (deferred writes to several databases happen in any order)
                same = Counter(got) == Counter(want) if "bg" in ctx and "multi" in ctx else got == want
                rec.check(same, "events", f"{ctx}: after {ops[-12:]} listeners were told {got[-8:]}, changes were {want[-8:]}")
                root.db.remove_listener(f)
                n = len(got)
                for leaf in root.leaves():
                    leaf.db.save(b"after", b"after")
                    leaf.apply("save", b"after", b"after")
                flush(root)
                rec.check(len(got) == n, "removed-listener", f"{ctx}: told {got[n:]} after being removed")
            if rng.random() < 0.3:
                # emptying a key while looking at it
                k = rng.choice(keys)
                o = call(lambda: [root.db.delete(k, v) for v in root.db.fetch(k)])
                rec.check(o.exc is None, "delete-while-fetching", f"{ctx}: {o.exc!r}")
                for v in root.get(k):
                    root.apply("delete", k, v)
                flush(root)
                compare(rec, ctx, root, k, ())
            for leaf in root.leaves():
                if leaf.kind == "dir":
                    reopen(rec, rng, leaf, keys, tmp, ctx)
            for leaf in root.leaves():
                if leaf.kind == "dir":
                    shutil.rmtree(leaf.db.path, ignore_errors=True)


def compare(rec, ctx, node, k, ops):
    o = call(lambda: vals.extend(node.db.fetch(k))) if (vals := []) is not None else None
    rec.count("fetches")
    rec.count("values_seen", len(vals))
    if not rec.check(o.exc is None, "fetch-error", f"{ctx}: fetch({k[:20]}) on {node.desc} raised {o.exc!r} after {ops[-6:]}"):
        return
    want = node.get(k)
    rec.check(len(vals) == len(set(vals)), "duplicates", f"{ctx}: fetch({k[:20]}) on {node.desc} gave {vals[:8]}")
    rec.check(set(vals) == want, "set", f"{ctx}: fetch({k[:20]}) on {node.desc} gave {[v[:20] for v in vals][:8]}, expected "
              f"{[v[:20] for v in want][:8]} after {ops[-12:]}")
    rec.check(all(type(v) is bytes for v in vals), "type", f"{ctx}: {vals[:5]}")


def reopen(rec, rng, leaf, keys, tmp, ctx):
    """The same directory opened again, or shipped as an artifact, holds the same."""
    rec.count("reopened")
    again = Leaf(DirectoryBasedExampleDatabase(leaf.db.path), "dir again")
    again.data = leaf.data
    for k in keys:
        compare(rec, ctx, again, k, ())
    if rng.random() < 0.3 and Path(leaf.db.path).exists():
        d = tmp / f"art{rng.getrandbits(40)}"
        d.mkdir()
        stamp = (datetime.now(timezone.utc) - timedelta(minutes=5)).isoformat().replace(":", "_")
        old = (datetime.now(timezone.utc) - timedelta(days=3)).isoformat().replace(":", "_")
        if rng.random() < 0.5:
            # an older artifact is left alone or removed, never used
            with zipfile.ZipFile(d / f"{old}.zip", "w") as z:
                z.writestr("0000000000000000/1111", b"old")
        with zipfile.ZipFile(d / f"{stamp}.zip", "w", rng.choice([zipfile.ZIP_STORED, zipfile.ZIP_DEFLATED])) as z:
            for p in sorted(Path(leaf.db.path).rglob("*")):
                if p.is_file() or rng.random() < 0.5:
                    z.write(p, p.relative_to(leaf.db.path))
        db = GitHubArtifactDatabase("o", "r", path=d)
        art = Leaf(db, "artifact")
        art.data = leaf.data
        for k in keys:
            compare(rec, ctx, art, k, ())
        for k in keys:
            compare(rec, ctx, Wrap(ReadOnlyDatabase(db), "ro", [art]), k, ())
        for f, a in ((db.save, (b"k", b"v")), (db.delete, (b"k", b"v")), (db.move, (b"k", b"l", b"v"))):
            rec.check(isinstance(call(f, *a).exc, RuntimeError), "artifact-write", f"{f} went through")
        rec.count("artifacts")
        shutil.rmtree(d)


# ---------------------------------------------------------------- concurrency

CKEYS = [b"c1", b"c2", b"c1.secondary"]


def cvalue(who, i, size):
    head = b"%s:%d:" % (who.encode(), i)
    return head + (head * (size // len(head) + 1))[:size] + b":end"


def whole(v):
    """Was this value written by one of our workers, and completely?"""
    if not v.endswith(b":end"):
        return False
    parts = v.split(b":", 2)
    head = parts[0] + b":" + parts[1] + b":"
    body = v[len(head): -4]
    return (head * (len(body) // len(head) + 1))[: len(body)] == body


def worker_ops(db, who, seed, seconds, most=10**9):
    """Random operations on values of our own; returns the state they should leave."""
    rng = random.Random(seed)
    mine = {k: set() for k in CKEYS}
    end = time.monotonic() + seconds
    i = n = 0
    while time.monotonic() < end and n < 20_000:
        n += 1
        k = rng.choice(CKEYS)
        op = rng.choice(["save", "save", "move", "move", "delete", "fetch"])
        own = [(a, v) for a, s in mine.items() for v in s]
        if len(own) > most and op == "save":
            op = "delete"
        if op == "save" or not own:
            v = cvalue(who, i, rng.choice([0, 10, 10, 5000, 200_000] if i % 20 == 0 else [0, 10, 100]))
            i += 1
            db.save(k, v)
            mine[k].add(v)
        elif op == "fetch":
            got = list(db.fetch(k))
            bad = [v for v in got if not whole(v)]
            assert not bad, f"torn value {bad[0][:40]}"
            lost = mine[k] - set(got)
            assert not lost, f"lost own value {[v[:20] for v in lost][:3]} of {k}"
            more = {v for v in got if v.startswith(who.encode() + b":")} - mine[k]
            assert not more, f"removed values are back {[v[:20] for v in more][:3]}"
        else:
            a, v = rng.choice(sorted(own, key=lambda x: (x[0], x[1][:30], len(x[1]))))
            mine[a].discard(v)
            if op == "delete":
                db.delete(a, v)
            else:
                db.move(a, k, v)
                mine[k].add(v)
    return mine, n


def k_threads(rec):
    rng = rec.rng
    from hv.util import captured
    with Scratch() as tmp:
        for rnd in rec.loop(12 if rec.quick else 300):
            kind = ["mem", "dir", "bg-mem", "bg-dir", "multi"][rnd % 5]
            mk = lambda: DirectoryBasedExampleDatabase(tmp / f"t{rnd}")  # noqa
            if kind == "redis":
                import fakeredis

                from hypothesis.extra.redis import RedisExampleDatabase
                db = RedisExampleDatabase(fakeredis.FakeRedis())
            else:
                db = {"mem": InMemoryExampleDatabase, "dir": mk, "bg-mem": lambda: BackgroundWriteDatabase(InMemoryExampleDatabase()),
                      "bg-dir": lambda: BackgroundWriteDatabase(mk()),
                      "multi": lambda: MultiplexedDatabase(InMemoryExampleDatabase(), mk())}[kind]()
            results, errors = {}, []
            old = sys.getswitchinterval()
            sys.setswitchinterval(1e-5)
            secs = 0.5 if rec.quick else 2
            rng_most = rng.choice([1, 2, 10**9])

            def work(i):
                try:
                    results[i] = worker_ops(db, f"w{i}", f"{rec.seed}{rnd}{i}", secs, rng_most)
                except BaseException as e:
                    errors.append((i, e))
            ts = [threading.Thread(target=work, args=(i,)) for i in range(4)]
            for t in ts:
                t.start()
            for t in ts:
                t.join()
            sys.setswitchinterval(old)
            rec.count("histories")
            rec.observed((kind, rnd))
            rec.count("ops", sum(n for _, n in results.values()))
            if not rec.check(not errors, "thread", f"{kind}: {errors[:2]!r}"):
                continue
            for k in CKEYS:
                want = set().union(*(m[k] for m, _ in results.values()))
                got = list(db.fetch(k))
                rec.count("values_seen", len(got))
                rec.check(len(got) == len(set(got)) and set(got) == want, "thread-final",
                          f"{kind}: {k} lost {[v[:20] for v in want - set(got)][:3]}, extra {[v[:20] for v in set(got) - want][:3]}")
            rec.count("concurrent_fetches", sum(n for _, n in results.values()) // 6)


def proc_main(path, who, seed, seconds, out, shm, most):
    if shm:
        # the temporary directory is on another file system
        tempfile.tempdir = shm
    db = DirectoryBasedExampleDatabase(path)
    try:
        mine, n = worker_ops(db, who, seed, seconds, most)
        out.put((who, {k: [v for v in s] for k, s in mine.items()}, n, None))
    except BaseException as e:
        out.put((who, {}, 0, repr(e)))


def k_procs(rec):
    rng = rec.rng
    ctx = multiprocessing.get_context("fork")
    with Scratch() as tmp:
        for rnd in rec.loop(4 if rec.quick else 100):
            path = str(tmp / f"p{rnd}")
            out = ctx.Queue()
            shm = None
            if rnd % 2 and os.access("/dev/shm", os.W_OK):
                shm = tempfile.mkdtemp(prefix="hv19-", dir="/dev/shm")
                rec.count("other_file_system")
            try:
                ps = [ctx.Process(target=proc_main, args=(path, f"p{i}", f"{rec.seed}{rnd}{i}", 1.2 if rec.quick else 3, out, shm, [1, 2, 1, 10**9][rnd % 4]))
                      for i in range(4)]
                for p in ps:
                    p.start()
                res = [out.get(timeout=120) for _ in ps]
                for p in ps:
                    p.join()
            finally:
                if shm:
                    shutil.rmtree(shm, ignore_errors=True)
            rec.count("histories")
            rec.observed(("procs", rnd))
            errors = [r[3] for r in res if r[3]]
            rec.count("ops", sum(r[2] for r in res))
            rec.count("concurrent_fetches", sum(r[2] for r in res) // 6)
            if not rec.check(not errors, "process", f"shm={shm}: {errors[:2]}"):
                continue
            db = DirectoryBasedExampleDatabase(path)
            for k in CKEYS:
                want = {v for r in res for v in r[1][k]}
                got = list(db.fetch(k))
                rec.count("values_seen", len(got))
                rec.check(len(got) == len(set(got)) and set(got) == want, "process-final",
                          f"shm={shm}: {k} lost {[v[:20] for v in want - set(got)][:3]} extra {[v[:20] for v in set(got) - want][:3]}")
            shutil.rmtree(path, ignore_errors=True)


def kill_main(path, seed, tmpdir, wfd):
    tempfile.tempdir = tmpdir
    db = DirectoryBasedExampleDatabase(path)
    rng = random.Random(seed)
    i = 0
    saved = []
    while True:
        v = cvalue("x", i, rng.choice([10, 3000, 300_000]))
        i += 1
        k = rng.choice(CKEYS)
        db.save(k, v)
        os.write(wfd, b"+%d %d %d\n" % (i - 1, CKEYS.index(k), len(v)))
        if rng.random() < 0.4:
            os.write(wfd, b"?%d\n" % (i - 1))
            k2 = rng.choice(CKEYS)
            db.move(k, k2, v)
            os.write(wfd, b"=%d %d %d\n" % (i - 1, CKEYS.index(k2), len(v)))


def k_kill(rec):
    """A process killed at any point leaves only whole values, and all it had saved."""
    rng = rec.rng
    ctx = multiprocessing.get_context("fork")
    with Scratch() as tmp:
        for rnd in rec.loop(20 if rec.quick else 600):
            path, t2 = str(tmp / f"k{rnd}"), tmp / f"tmp{rnd}"
            t2.mkdir()
            if rnd % 3 == 0 and os.access("/dev/shm", os.W_OK):
                shm = tempfile.mkdtemp(prefix="hv19-", dir="/dev/shm")
            else:
                shm = None
            r, w = os.pipe()
            p = ctx.Process(target=kill_main, args=(path, rng.getrandbits(30), shm or str(t2), w))
            p.start()
            os.close(w)
            lines = []
            chunks = []
            th = threading.Thread(target=lambda: [chunks.append(c) for c in iter(lambda: os.read(r, 65536), b"")])
            th.start()
            time.sleep(rng.uniform(0.02, 0.25))
            os.kill(p.pid, signal.SIGKILL)
            p.join()
            th.join()
            os.close(r)
            if shm:
                shutil.rmtree(shm, ignore_errors=True)
            rec.count("kills")
            where, moving = {}, set()
            for line in b"".join(chunks).split(b"\n")[:-1]:
                if line[:1] == b"?":
                    moving.add(int(line[1:]))
                else:
                    i, k, n = map(int, line[1:].split())
                    where[i] = (CKEYS[k], n)
                    moving.discard(i)
            db = DirectoryBasedExampleDatabase(path)
            have = {}
            for k in CKEYS:
                for v in db.fetch(k):
                    rec.count("values_seen")
                    rec.check(whole(v), "torn", f"after a kill {k} holds {v[:40]!r} of length {len(v)}")
                    have.setdefault(int(v.split(b":")[1]), []).append((k, len(v)))
            lost = [i for i, kn in where.items() if i not in moving and kn not in have.get(i, [])]
            rec.check(not lost, "lost-by-kill", f"saved values {lost[:5]} are gone after a kill")
            # a move either happened or did not; then a value being moved may only be in transit
            rec.check(len([i for i in moving if not have.get(i)]) <= 1, "lost-moving", f"{moving}")
            rec.observed(("kill", len(where), rnd))
            shutil.rmtree(path, ignore_errors=True)


EXIT = """
import sys
from hypothesis.database import BackgroundWriteDatabase, DirectoryBasedExampleDatabase
db = BackgroundWriteDatabase(DirectoryBasedExampleDatabase(sys.argv[1]))
for i in range(int(sys.argv[2])):
    db.save(b"k%d" % (i % 3), b"v%d" % i)
    if i % 5 == 0:
        db.move(b"k%d" % (i % 3), b"m", b"v%d" % i)
if sys.argv[3] == "raise":
    raise SystemExit(3)
"""


def k_exit(rec):
    """Deferred writes are done by the time the process has ended."""
    with Scratch() as tmp:
        for rnd in rec.loop(4 if rec.quick else 40):
            path = tmp / f"e{rnd}"
            n = [1, 50, 400, 1000][rnd % 4]
            subprocess.run([sys.executable, "-c", EXIT, str(path), str(n), "raise" if rnd % 2 else "end"], check=False,
                           timeout=120, cwd=tmp)
            db = DirectoryBasedExampleDatabase(path)
            want = {b"m": set(), b"k0": set(), b"k1": set(), b"k2": set()}
            for i in range(n):
                want[b"m" if i % 5 == 0 else b"k%d" % (i % 3)].add(b"v%d" % i)
            rec.count("reopened")
            rec.observed(("exit", n))
            for k, s in want.items():
                got = list(db.fetch(k))
                rec.count("values_seen", len(got))
                rec.check(set(got) == s and len(got) == len(s), "exit", f"{n} deferred writes: {k} lost {sorted(s - set(got))[:4]}")
        # odd directories are neither used nor fatal
        f = tmp / "file"
        f.write_bytes(b"x")
        for p in (f, f / "below", tmp / "new" / "er"):
            db = DirectoryBasedExampleDatabase(p)
            rec.check(call(lambda: list(db.fetch(b"k"))).exc is None, "odd-path", f"fetch from {p}")
            o = call(lambda: (db.save(b"k", b"v"), db.move(b"k", b"l", b"v"), db.delete(b"k", b"v"), list(db.fetch(b"l"))))
            rec.check(o.exc is None, "odd-path", f"{p}: {o.exc!r}")
        db = DirectoryBasedExampleDatabase(tmp / "junk")
        db.save(b"k", b"v")
        kp = next(p for p in (tmp / "junk").iterdir() if any(x.read_bytes() == b"v" for x in p.iterdir()))
        (kp / "directory").mkdir()
        (tmp / "junk" / "stray").write_bytes(b"s")
        rec.check(list(db.fetch(b"k")) == [b"v"], "stray", f"{list(db.fetch(b'k'))}")


def k_watch(rec):
    """Listeners of a directory hear of changes made through any other object."""
    rng = rec.rng
    with Scratch() as tmp:
        for rnd in rec.loop(3 if rec.quick else 60):
            path = tmp / f"w{rnd}"
            other = DirectoryBasedExampleDatabase(path)
            keys = [b"a", b"b", b"c"]
            for k in keys:
                other.save(k, b"base-" + k)
            db = DirectoryBasedExampleDatabase(path)
            wrapped = rng.choice([db, BackgroundWriteDatabase(db), MultiplexedDatabase(db)])
            got = []
            wrapped.add_listener(got.append)
            time.sleep(0.3)
            want = []
            model = {k: {b"base-" + k} for k in keys}

            def settle(n):
                end = time.monotonic() + 5
                while len(got) < n and time.monotonic() < end:
                    time.sleep(0.01)
                time.sleep(0.03)
            for i in range(12):
                k, k2 = rng.sample(keys, 2)
                v = b"v%d" % i
                op = rng.choice(["save", "delete", "move", "again"])
                src = rng.choice([other, db])
                if op == "save":
                    src.save(k, v)
                    model[k].add(v)
                    want.append(("save", (k, v)))
                elif op == "again":
                    for w in sorted(model[k])[:1]:
                        src.save(k, w)
                elif op == "delete":
                    for w in sorted(model[k])[:1]:
                        src.delete(k, w)
                        model[k].discard(w)
                        want.append(("delete", (k, None)))
                else:
                    for w in sorted(model[k])[:1]:
                        if w in model[k2]:
                            continue
                        src.move(k, k2, w)
                        model[k].discard(w)
                        model[k2].add(w)
                        want += [("delete", (k, w)), ("save", (k2, w))]
                settle(len(want))
                rec.count("watched")
                if got != want:
                    break
            rec.observed(("watch", rnd))
            rec.count("events", len(got))
            rec.check(got == want, "watch", f"listeners were told {got[-5:]}, changes were {want[-5:]}")
            wrapped.clear_listeners()
            n = len(got)
            other.save(b"a", b"late")
            time.sleep(0.1)
            rec.check(len(got) == n, "watch-removed", f"told {got[n:]}")


def run(unit, rec):
    globals()["k_" + unit["kind"].rstrip("0123456789")](rec)
