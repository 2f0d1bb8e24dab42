"""Random rule-based state machines, every call of which is logged, and a monitor which
judges such a log by the documented rules."""
from collections import Counter

from hypothesis import assume, strategies as st
from hypothesis.stateful import (
    Bundle, RuleBasedStateMachine, consumes, initialize, invariant, multiple, precondition, rule,
)

from hv.util import HvFail, HvFail2, stable_hash


class Tok:
    """A value only rules give; compared by identity."""

    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return f"Tok({self.n})"


class Pair:
    def __init__(self, a, b):
        self.a, self.b = a, b

    def __repr__(self):
        return f"Pair({self.a!r}, {self.b!r})"


def copied(v):
    return type(v)(v) if isinstance(v, (list, dict, set, bytearray)) else v


def toks(v):
    """All tokens inside an argument."""
    if isinstance(v, Tok):
        return [v]
    if isinstance(v, Pair):
        return toks(v.a) + toks(v.b)
    if isinstance(v, (list, tuple)):
        return [t for x in v for t in toks(x)]
    if isinstance(v, dict):
        return [t for x in v.values() for t in toks(x)]
    return []


class Arg:
    def __init__(self, strat, kind, bundles=(), consume=False, must=False):
        self.strat, self.kind, self.bundles, self.consume = strat, kind, bundles, consume
        self.must = must  # can the rule not run while the bundle is empty?


def make_arg(rng, bundles, by_bundle):
    k = rng.choice(["plain", "plain", "ref", "ref", "ref", "consume", "consume", "list", "clist", "one_of", "map", "tuple", "flatmap", "pair"])
    if not bundles or k == "plain":
        s, d = rng.choice([(st.integers(0, 5), "int"), (st.booleans(), "bool"), (st.text("ab", max_size=2), "text"),
                           (st.lists(st.integers(0, 3), max_size=2), "ints"), (st.none(), "none"),
                           (st.dictionaries(st.integers(0, 3), st.booleans(), max_size=3), "dict"), (st.sets(st.integers(0, 3), max_size=3), "set"),
                           (st.builds(bytearray, st.binary(max_size=3)), "bytearray")])
        return Arg(s, d)
    b = rng.choice(bundles)
    B = by_bundle[b]
    cons = getattr(B, "hv_consume", False)
    if k == "ref":
        return Arg(B, f"{b}", (b,), cons, True)
    if k == "consume":
        return Arg(consumes(B), f"consumes({b})", (b,), True, True)
    if k == "clist":
        return Arg(st.lists(consumes(B), max_size=2), f"lists(consumes({b}))", (b,), True)
    if k == "list":
        return Arg(st.lists(B, max_size=3), f"lists({b})", (b,), cons)
    if k == "one_of":
        c = rng.choice(bundles)
        C = by_bundle[c]
        if cons or getattr(C, "hv_consume", False):
            return Arg(consumes(B), f"consumes({b})", (b,), True, True)
        return Arg(st.one_of(B, C, st.integers(0, 1)), f"one_of({b}, {c}, int)", (b, c), False)
    if k == "map":
        return Arg(B.map(lambda v: (v, 1)), f"{b}.map", (b,), cons)
    if k == "pair":
        return Arg(st.builds(Pair, B, st.integers(0, 2)), f"builds(Pair, {b})", (b,), cons)
    if k == "flatmap":
        if rng.random() < 0.3:
            B, cons = consumes(B), True
        return Arg(B.flatmap(lambda v: st.tuples(st.just(v), st.integers(0, 1))), f"{b}.flatmap", (b,), cons)
    return Arg(st.tuples(B, st.just(0)), f"tuples({b})", (b,), cons)


class Trace:
    """What one machine instance did: ("call", kind, name, kwargs, result, error, state...)."""

    def __init__(self):
        self.steps = []
        self.open = False


class Machine:
    """A specification; `make` gives the class.  `traces` collects a Trace per instance."""

    def __init__(self, rng, fail=None, plain=False, rejects=None, returns=None):
        self.salt = rng.getrandbits(30)
        self.traces = []
        self.names = [f"b{i}" for i in range(rng.choice([0, 1, 2, 3]))]
        self.by_bundle = {}
        for n in self.names:
            cons = rng.random() < 0.2
            self.by_bundle[n] = Bundle(n, consume=cons)
            self.by_bundle[n].hv_consume = cons
        self.failp = rng.choice([0, 0, 0.005, 0.03, 0.2]) if fail is None else fail
        self.rejectp = rng.choice([0, 0, 0.02]) if rejects is None else rejects
        self.rules, self.inits, self.invs = {}, {}, {}
        for i in range(rng.choice([0, 0, 1, 2])):
            self.inits[f"i{i}"] = self.spec(rng, init=True)
        for i in range(rng.choice([1, 2, 3, 5])):
            self.rules[f"r{i}"] = self.spec(rng, free=i == 0)
        for i in range(rng.choice([0, 1, 2])):
            self.invs[f"v{i}"] = dict(during=rng.random() < 0.4, pre=self.pre(rng, rng.choice([0, 0, 1, 2])), fail=rng.random() < 0.5)
        self.desc = repr((
            {k: (v["delta"], v["targets"], {a: x.kind for a, x in v["args"].items()}, v["pre"], v["ret"]) for k, v in {**self.inits, **self.rules}.items()},
            self.invs, f"fail {self.failp}", f"reject {self.rejectp}", {n: b.hv_consume for n, b in self.by_bundle.items()}))

    def pre(self, rng, n):
        return [(rng.choice([2, 3, 4]), rng.randrange(4)) for _ in range(n)]

    def spec(self, rng, init=False, free=False):
        """free: can always run."""
        args = {}
        for i in range(rng.choice([0, 1, 1, 2, 3])):
            a = make_arg(rng, [] if free or init else self.names, self.by_bundle)
            args[rng.choice("axz") + str(i)] = a
        targets = rng.sample(self.names, rng.choice([0, 1, 1, min(2, len(self.names))])) if self.names else []
        return dict(args=args, targets=targets, delta=rng.choice([0, 1, 1, 2]), pre=[] if free or init else self.pre(rng, rng.choice([0, 0, 1, 2])),
                    ret=rng.choice(["tok", "tok", "tok", "multi", "multi0", "old", "int"]) if targets else "none",
                    how=rng.randrange(3), mutates=rng.random() < 0.4)

    def outcome(self, n, what):
        h = stable_hash(f"{self.salt}:{n}:{what}") % 10_000
        if h < self.failp * 10_000:
            return HvFail if h % 2 else HvFail2
        h = stable_hash(f"r{self.salt}:{n}:{what}") % 10_000
        return "reject" if h < self.rejectp * 10_000 else None

    def make(self, name="Machine"):
        spec = self

        def pres(ps):
            return [lambda self, m=m, r=r: self.n % m != r for m, r in ps]

        def start(self):
            RuleBasedStateMachine.__init__(self)
            self.n = 0
            self.count = 0
            self.trace = Trace()
            spec.traces.append(self.trace)
            self.trace.steps.append(("new", applicable(self)))

        def applicable(self):
            return [k for k, v in spec.invs.items() if all(p(self) for p in pres(v["pre"]))]

        def body(self, kind, name, sp, kw):
            # what must hold as the rule starts
            held = all(p(self) for p in pres(sp["pre"]))
            self.count += 1
            entry = dict(kind=kind, name=name, kw={k: copied(v) for k, v in kw.items()}, held=held, out="raise", given=[], n=self.n)
            self.trace.steps.append(("step", entry))
            known = [t for v in kw.values() for t in toks(v)]
            said = repr(sorted((k, repr(v)) for k, v in kw.items() if not toks(v)))
            if sp["mutates"]:
                for v in kw.values():
                    if isinstance(v, (list, dict, set, bytearray)):
                        v.clear()
            o = spec.outcome((self.count, self.n), name + said)
            if o == "reject":
                assume(False)
            if o is not None:
                raise o(name)
            self.n += sp["delta"]
            old = known
            ret = None
            if sp["ret"] == "tok":
                ret = Tok(self.count)
            elif sp["ret"] == "multi":
                ret = multiple(Tok((self.count, 0)), Tok((self.count, 1)))
            elif sp["ret"] == "multi0":
                ret = multiple() if self.count % 2 else multiple(Tok((self.count, 0)))
            elif sp["ret"] == "old":
                ret = old[0] if old else Tok(self.count)
            elif sp["ret"] == "int":
                ret = Tok(self.count)
            entry["given"] = list(ret) if hasattr(ret, "values") else [] if not sp["targets"] else [ret]
            entry["out"] = "done"
            entry["inv"] = applicable(self)
            return ret

        def make_rule(kind, nm, sp):
            def f(self, **kw):
                return body(self, kind, nm, sp, kw)
            f.__name__ = f.__qualname__ = nm
            kw = {k: a.strat for k, a in sp["args"].items()}
            ts = [spec.by_bundle[t] for t in sp["targets"]]
            if len(ts) == 1 and sp["how"] == 0:
                kw["target"] = ts[0]
            elif ts:
                kw["targets"] = tuple(ts)
            if kind == "init":
                return initialize(**kw)(f)
            ps = pres(sp["pre"])
            if sp["how"] == 1:
                for p in ps:
                    f = precondition(p)(f)
                return rule(**kw)(f)
            f = rule(**kw)(f)
            for p in ps:
                f = precondition(p)(f)
            return f

        def make_inv(nm, sp):
            def f(self):
                held = all(p(self) for p in pres(sp["pre"]))
                self.trace.steps.append(("inv", nm, held))
                if sp["fail"] and spec.outcome((self.count, self.n), "inv" + nm) in (HvFail, HvFail2):
                    self.trace.steps.append(("inv-raised", nm))
                    raise HvFail(nm)
            f.__name__ = f.__qualname__ = nm
            f = invariant(check_during_init=sp["during"])(f)
            for p in pres(sp["pre"]):
                f = precondition(p)(f)
            return f

        def teardown(self):
            self.trace.steps.append(("teardown",))

        ns = {"__init__": start, "teardown": teardown}
        for n, b in self.by_bundle.items():
            ns[n] = b
        for k, v in self.inits.items():
            ns[k] = make_rule("init", k, v)
        for k, v in self.rules.items():
            ns[k] = make_rule("rule", k, v)
        for k, v in self.invs.items():
            ns[k] = make_inv(k, v)
        return type(name, (RuleBasedStateMachine,), ns)

    # -------------------------------------------------------------- judging

    def judge(self, trace, max_steps):
        """Complaints about the log of one instance."""
        bundles = {n: Counter() for n in self.names}
        pending = set(self.inits)
        expect = None  # invariants due now
        steps = 0
        dead = False
        torn = 0
        for i, s in enumerate(trace.steps):
            what = s[0]
            if what == "teardown":
                torn += 1
                if i != len(trace.steps) - 1:
                    return "something ran after teardown"
                if expect and not dead:
                    return f"invariants {expect} were not checked before the end"
                continue
            if dead:
                return f"{s} ran after an error"
            if what == "new":
                expect = self.due(s[1], pending)
            elif what == "inv":
                if not s[2]:
                    return f"invariant {s[1]} ran though its precondition does not hold"
                if s[1] not in expect:
                    return f"invariant {s[1]} ran when due were {expect}"
                expect.remove(s[1])
            elif what == "inv-raised":
                dead = True
            else:
                e = s[1]
                if expect:
                    return f"{e['name']} ran before invariants {expect} were checked"
                steps += 1
                if e["kind"] == "init":
                    if e["name"] not in pending:
                        return f"initialize rule {e['name']} ran twice"
                    pending.discard(e["name"])
                    sp = self.inits[e["name"]]
                else:
                    if pending:
                        return f"rule {e['name']} ran before initialize rules {pending}"
                    sp = self.rules[e["name"]]
                if not e["held"]:
                    return f"rule {e['name']} ran though a precondition does not hold"
                if set(e["kw"]) != set(sp["args"]):
                    return f"rule {e['name']} was given {sorted(e['kw'])}"
                before = {n: Counter(c) for n, c in bundles.items()}
                for a, arg in sp["args"].items():
                    got = toks(e["kw"][a])
                    if arg.must and not any(before[b] for b in arg.bundles):
                        return f"rule {e['name']} ran with {arg.bundles} empty"
                    if arg.must and len(got) != 1:
                        return f"rule {e['name']}: {a} is {e['kw'][a]!r}, not from {arg.bundles}"
                    for t in got:
                        if not any(before[b][t] for b in arg.bundles):
                            return f"rule {e['name']}: {a} contains {t}, not in {arg.bundles}: {before}"
                    if arg.consume:
                        for t in got:
                            b = arg.bundles[0]
                            bundles[b][t] -= 1
                            if bundles[b][t] < 0:
                                return f"rule {e['name']}: {a} consumed {t} which is not there any more"
                if e["out"] != "done":
                    dead = True
                    expect = []
                    continue
                for t in e["given"]:
                    for b in sp["targets"]:
                        bundles[b][t] += 1
                expect = self.due(e["inv"], pending)
        if steps > max_steps:
            return f"{steps} steps with stateful_step_count={max_steps}"
        if torn != 1:
            return f"teardown ran {torn} times"
        return None

    def due(self, names, pending):
        return [n for n in names if not pending or self.invs[n]["during"]]
