"""C02: text, bytes, characters and regex strategies."""
import itertools
import re
import unicodedata

from hypothesis import strategies as st
from hypothesis.errors import InvalidArgument

from hv.util import extremes, drive, finite_values, produces, replay_gives

INFO = dict(
    level="exploration",
    rule="One evaluation = one string/bytes value seen by a test in generation, shrinking, "
         "targeting, fuzzing of arbitrary bytes or replay of arbitrary choices, or one member "
         "of a finite language looked for. Non-trivial = distinct configuration or member. The "
         "oracle is unicodedata, str.encode and the re module.",
    floors={"configs": 40, "executions_s": 200, "executions_f": 200, "executions_r": 50,
            "members": 600, "regexes": 30},
    assumptions=["completeness of from_regex is only demanded for patterns without case-"
                 "insensitive non-ASCII folding"],
)
KINDS = ["chars", "chars2", "text", "binary", "regex0", "regex1", "regex2", "bytesregex",
         "finite", "regexlang0", "regexlang1", "regexlang2"]


def units(tier, seed):
    reps = 1 if tier == "quick" else 10
    return [dict(name=f"{k}-{i}", kind=k, timeout=800) for i in range(reps) for k in KINDS]


CATS = ["Lu", "Ll", "Lt", "Lm", "Lo", "Mn", "Mc", "Me", "Nd", "Nl", "No", "Pc", "Pd", "Ps", "Pe",
        "Pi", "Pf", "Po", "Sm", "Sc", "Sk", "So", "Zs", "Zl", "Zp", "Cc", "Cf", "Cs", "Co", "Cn"]
CODECS = ["ascii", "utf-8", "latin-1", "cp1252", "utf-16", "shift_jis", "koi8-r", "iso8859-15",
          "cp437", "big5", "gbk", "utf-7"]
_cat = None


def category_table():
    global _cat
    if _cat is None:
        _cat = [unicodedata.category(chr(i)) for i in range(0x110000)]
    return _cat


def encodable(c, codec):
    try:
        c.encode(codec)
        return True
    except UnicodeEncodeError:
        return False


def rand_char_config(rng):
    c = {}
    if rng.random() < 0.5:
        c["min_codepoint"] = rng.choice([0, 1, 48, 65, 97, 127, 128, 255, 256, 0xD7FF, 0xD800,
                                         0xDFFF, 0xE000, 0xFFFF, 0x10000, 0x10FFF0])
    if rng.random() < 0.6:
        c["max_codepoint"] = min(0x10FFFF, c.get("min_codepoint", 0)
                                 + rng.choice([0, 1, 10, 64, 200, 1000, 60000, 0x10FFFF]))
    r = rng.random()
    cats = rng.sample(CATS + ["L", "N", "P", "S", "Z", "C", "M"], rng.randint(1, 5))
    if r < 0.3:
        c["categories"] = cats
    elif r < 0.6:
        c["exclude_categories"] = cats
    pool = "09azAZ _\n\x00é€\u2028\ud800\U0010ffff~\x7f\x80ǅ"
    inc = set(rng.sample(pool, rng.randint(0, 4)))
    exc = set(rng.sample(pool, rng.randint(0, 4))) - inc
    if rng.random() < 0.5 and inc:
        c["include_characters"] = "".join(sorted(inc))
    if rng.random() < 0.6 and exc:
        c["exclude_characters"] = "".join(sorted(exc))
    if rng.random() < 0.35:
        c["codec"] = rng.choice(CODECS)
    return c


def permitted_fn(c):
    cats = category_table()

    def expand(l):
        return {x for x in CATS for y in l if x == y or x[0] == y}

    yes = expand(c["categories"]) if "categories" in c else None
    no = expand(c["exclude_categories"]) if "exclude_categories" in c else set()
    lo, hi = c.get("min_codepoint", 0), c.get("max_codepoint", 0x10FFFF)
    inc, exc = c.get("include_characters", ""), c.get("exclude_characters", "")

    def ok(ch):
        if ch in exc:
            return False
        if ch in inc:
            return True
        i = ord(ch)
        if not lo <= i <= hi:
            return False
        k = cats[i]
        if yes is not None and k not in yes or k in no:
            return False
        return "codec" not in c or encodable(ch, c["codec"])
    return ok


def neighbour(rng, c):
    """Differs from c in one detail."""
    c = dict(c)
    key = rng.choice(["exclude_characters"] * 3 + ["include_characters"] * 2 + ["max_codepoint", "min_codepoint", "cats"])
    if key.endswith("characters"):
        old = list(c.get(key, ""))
        other = c.get("include_characters" if key[0] == "e" else "exclude_characters", "")
        new = [x for x in "09azAZ _\n\x00é€\u2028~\x7f\x80ǅbcdefqwy!" if x not in old and x not in other]
        how = rng.randrange(3)
        if how and old:
            old.pop(rng.randrange(len(old)))
        if how < 2 or not old:
            old.append(rng.choice(new))
        c[key] = "".join(sorted(old))
    elif key == "cats":
        for k in ("categories", "exclude_categories"):
            if k in c:
                old = list(c[k])
                old[rng.randrange(len(old))] = rng.choice(CATS)
                c[k] = old
    elif key in c:
        c[key] = max(0, c[key] + rng.choice([-1, 1]))
    return c


def make_chars(rng, rec, before=None):
    while True:
        c = rand_char_config(rng) if before is None or rng.random() < 0.4 else neighbour(rng, before)
        try:
            s = st.characters(**c)
            s.validate()
            if s.is_empty:
                rec.count("empty_configs")
                continue
        except InvalidArgument:
            rec.count("rejected_configs")
            continue
        return c, s


def one_char(v, ok):
    if type(v) is not str:
        return f"not a str: {type(v)}"
    if len(v) != 1:
        return f"length {len(v)}"
    if not ok(v):
        return f"{v!r} (category {unicodedata.category(v)}) is not permitted"


def probe_chars(rec, name, s, ok, probes):
    for ch in sorted(probes):
        rec.count("probes")
        given = ch in replay_gives(s, [ch])
        if given and not ok(ch):
            rec.violation("characters-probe", f"{name}: gives {ch!r}")
        elif ok(ch) and not given and produces(s, [ch], n=500):
            rec.violation("characters-probe", f"{name}: cannot give {ch!r}")


def run_chars(rec):
    rng = rec.rng
    before = None
    for _ in rec.loop(18 if rec.quick else 60):
        c, s = make_chars(rng, rec, before)
        ok = permitted_fn(c)
        probes = {x for d in (c, before or {}) for k in ("include_characters", "exclude_characters") for x in d.get(k, "")}
        before = c
        name = f"characters|{c}"
        rec.count("configs")
        rec.observed(name)
        drive(rec, name, s, lambda v: one_char(v, ok), n=50, fuzz_n=20, replay_n=25,
              metric=lambda v: ord(v))
        probe_chars(rec, name, s, ok, probes)
        # a family of strategies which differ in one detail each (they share caches)
        for _ in range(4):
            d, s2 = make_chars(rng, rec, before)
            probes = {x for e in (d, before) for k in ("include_characters", "exclude_characters") for x in e.get(k, "")}
            probe_chars(rec, f"characters|{d} after {before}", s2, permitted_fn(d), probes)
            before = d
        if rng.random() < 0.5 and rec.quick:
            continue
        # the permitted set, and members at the edges of its runs
        members, edges, prev = 0, [], False
        small = []
        for i in range(0x110000):
            cur = ok(chr(i))
            if cur:
                members += 1
                if members <= 150:
                    small.append(chr(i))
            if cur != prev:
                edges.append(chr(i) if cur else chr(i - 1))
            prev = cur
        if prev:
            edges.append(chr(0x10FFFF))
        rec.count("permitted_sets")
        if members == 0:
            rec.violation("empty-set-drawn", f"{name}: accepted although nothing is permitted")
            continue
        if members <= 150:
            seen, _ = finite_values(s, n=4 * members + 100, sd=rng.getrandbits(30), key=lambda v: v)
            rec.count("members", members)
            rec.observed((name, "all"), n=members)
            missing = set(small) - set(seen)
            rec.check(not missing, "characters-incomplete", f"{name}: never gives {missing!r}")
            rec.check(not set(seen) - set(small), "characters-extra", f"{name}")
        else:
            for ch in rng.sample(edges, min(12, len(edges))):
                rec.count("members")
                rec.observed((name, ch))
                if ch not in replay_gives(s, [ch]) and produces(s, [ch], n=500):
                    rec.violation("characters-unreachable", f"{name}: cannot give {ch!r}")
        rec.sample(strategy=name, permitted=members)


run_chars2 = run_chars


def sizes(rng):
    a = rng.choice([0, 0, 1, 2, 5, 20])
    b = rng.choice([None, a, a + 1, a + 3, a + 50])
    return a, b


def run_text(rec):
    rng = rec.rng
    for _ in rec.loop(24 if rec.quick else 80):
        k = rng.randrange(6)
        lo, hi = sizes(rng)
        if k <= 1:
            c, alpha = make_chars(rng, rec)
            ok = permitted_fn(c)
            desc = c
        elif k == 2:
            desc = "".join(rng.sample("abc01 \n\x00é\ud800\U0010ffff", rng.randint(1, 6)))
            alpha, ok = desc, (lambda ch, d=desc: ch in d)
        elif k == 3:
            desc = rng.sample("abc01 \n\x00éZ", rng.randint(1, 6))
            alpha = rng.choice([list, tuple, set, frozenset])(desc)
            if isinstance(alpha, (set, frozenset)):
                alpha = sorted(alpha)
            ok = (lambda ch, d=set(desc): ch in d)
        elif k == 4:
            desc = "sampled/filter/map"
            base = rng.choice("abc")
            alpha = rng.choice([
                st.sampled_from("abcxyz"), st.characters().filter(lambda c: c in "abcxyz" or c < "a"),
                st.characters(max_codepoint=127).map(lambda c: c if c != base else "x"),
                st.sampled_from("ab") | st.sampled_from("yz"), st.just("a"),
            ])
            ok = (lambda ch: True)
        else:
            desc, alpha = "default", st.characters(codec="utf-8")
            ok = (lambda ch: unicodedata.category(ch) != "Cs")
        s = st.text(alpha, min_size=lo, max_size=hi)
        name = f"text|{desc!r} {lo} {hi}"

        def obs(v):
            if type(v) is not str:
                return f"not a str: {type(v)}"
            if len(v) < lo or (hi is not None and len(v) > hi):
                return f"length {len(v)}"
            for ch in v:
                if not ok(ch):
                    return f"{ch!r} is not permitted"
        rec.count("configs")
        rec.observed(name)
        drive(rec, name, s, obs, n=50, fuzz_n=25, replay_n=25, metric=len)
        # both sizes and long strings are reachable
        check_sizes(rec, name, s, lo, hi)
        rec.sample(strategy=name)


def check_sizes(rec, name, s, lo, hi):
    """The least and the greatest size, and something above the least, are reachable."""
    rec.count("members", 2)
    got = {len(v) for v in extremes(s, rec.rng, "min")}
    rec.check(lo in got, "size-unreachable", f"{name}: never has length {lo}, but {got}")
    got = {len(v) for v in extremes(s, rec.rng, "max", 3)}
    top = hi if hi is not None and hi <= lo + 30 else None
    rec.check(top in got if top is not None else max(got, default=0) > lo, "size-unreachable",
              f"{name}: lengths only {got} with every choice at its maximum")
    if lo <= 5 and (hi is None or hi > lo):
        miss = produces(s, [lo + 1], n=300, seeds=(1, 2, 3), eq=lambda x, v: len(v) == x)
        rec.check(not miss, "size-unreachable", f"{name}: never has length {lo + 1}")


def run_binary(rec):
    rng = rec.rng
    for _ in rec.loop(24 if rec.quick else 60):
        lo, hi = sizes(rng)
        if rng.random() < 0.1:
            lo, hi = 1000, rng.choice([None, 1001])
        s = st.binary(min_size=lo, max_size=hi)
        name = f"binary|{lo} {hi}"

        def obs(v):
            if type(v) is not bytes:
                return f"not bytes: {type(v)}"
            if len(v) < lo or (hi is not None and len(v) > hi):
                return f"length {len(v)}"
        rec.count("configs")
        rec.observed(name)
        drive(rec, name, s, obs, n=50, fuzz_n=25, replay_n=25, metric=len)
        check_sizes(rec, name, s, lo, hi)
        v = rng.randbytes(lo + (0 if hi == lo else 1))
        rec.check(v in replay_gives(s, [v]) or len(v) > 6 or not produces(s, [v], n=2000),
                  "binary-unreachable", f"{name}: {v!r}")
    seen, calls = finite_values(st.binary(max_size=1), n=1000, sd=1, key=lambda v: v)
    want = {b""} | {bytes([i]) for i in range(256)}
    rec.count("members", 257)
    rec.check(set(seen) == want, "binary-incomplete", f"missing {sorted(want - set(seen))[:5]}")
    seen, calls = finite_values(st.binary(min_size=1, max_size=1), n=1000, sd=1, key=lambda v: v)
    rec.check(set(seen) == want - {b""}, "binary-incomplete", "size exactly 1")


def run_finite(rec):
    rng = rec.rng
    for _ in rec.loop(24 if rec.quick else 80):
        k = rng.randint(1, 4)
        alpha = "".join(rng.sample("abcxyz01 \n\x00éß\U0001f600", k))
        lo = rng.randint(0, 2)
        hi = lo + rng.randint(0, 3 if k <= 2 else 1)
        want = {"".join(t) for n in range(lo, hi + 1) for t in itertools.product(alpha, repeat=n)}
        s = st.text(rng.choice([alpha, list(alpha), st.sampled_from(alpha)]),
                    min_size=lo, max_size=hi)
        name = f"text|{alpha!r} {lo} {hi}"
        seen, calls = finite_values(s, n=3 * len(want) + 200, sd=rng.getrandbits(30), key=lambda v: v)
        rec.count("members", len(want))
        for w in want:
            rec.observed((name, w))
        rec.check(set(seen) == want, "text-incomplete",
                  f"{name}: missing {sorted(want - set(seen))[:4]} extra {sorted(set(seen) - want)[:4]}")
        rec.check(calls <= 3 * len(want) + 200, "text-calls", name)


# ------------------------------------------------------------------ regexes
class Gen:
    """Random regular expressions over a small vocabulary."""

    def __init__(self, rng, hostile):
        self.rng, self.hostile = rng, hostile
        self.groups = 0
        self.names = []

    def atom(self, d):
        r = self.rng
        k = r.randrange(14 if self.hostile else 9)
        if k <= 2:
            return r.choice("abcAB01")
        if k == 3:
            return "[" + r.choice(["", "^"]) + r.choice(["ab", "a-c", "0-9", "a", "bA1", "b-"]) + "]"
        if k == 4:
            return r.choice([r"\d", r"\w", r"\s", r"\D", r"\W", r"\S", "."]) if self.hostile \
                else r.choice(["a", "b"])
        if k <= 6 and d > 0:
            self.groups += 1
            n = self.groups
            if r.random() < 0.2:
                return f"(?P<g{n}>{self.alt(d - 1)})"
            return f"({self.alt(d - 1)})"
        if k == 7 and d > 0:
            return f"(?:{self.alt(d - 1)})"
        if k == 8:
            return r.choice(["a", "b"])
        if k == 9 and self.groups and self.hostile:
            return ""
        if k == 10:
            return r.choice(["^", "$", r"\A", r"\Z", r"\b", r"\B"])
        if k == 11 and d > 0:
            return f"(?{r.choice(['i', 's', 'm', '-i', 'x'])}:{self.alt(d - 1)})"
        if k == 12 and d > 0:
            return r.choice(["(?=%s)", "(?!%s)", "(?<=%s)", "(?<!%s)"]) % r.choice(["a", "b", "[ab]"])
        if k == 13 and d > 0:
            return f"(?>{self.alt(d - 1)})"
        return r.choice(["é", "ß", r"\n", r"\.", r"\x41", "K"])

    def piece(self, d):
        a = self.atom(d)
        if a in ("", "^", "$", r"\A", r"\Z", r"\b", r"\B") or a.startswith(("(?=", "(?!", "(?<")):
            return a
        r = self.rng.random()
        if r < 0.6:
            return a
        q = self.rng.choice(["?", "*", "+", "{2}", "{1,2}", "{0,2}", "{2,}", "*?", "+?", "??"]
                            if self.hostile else ["?", "{2}", "{1,2}", "{0,2}", "??"])
        if a.startswith("("):  # nested unbounded repeats would make re itself exponential
            q = self.rng.choice(["?", "{2}", "{1,2}", "{0,2}", "??"])
        elif self.hostile and self.rng.random() < 0.08:
            q = self.rng.choice(["?+", "*+", "++"])
        return a + q

    def seq(self, d):
        return "".join(self.piece(d) for _ in range(self.rng.randint(1, 3)))

    def alt(self, d):
        return "|".join(self.seq(d) for _ in range(self.rng.choice([1, 1, 1, 2, 3])))


def rand_pattern(rng, hostile=True, depth=2):
    g = Gen(rng, hostile)
    p = g.alt(depth)
    if g.groups and rng.random() < 0.35:
        n = rng.randint(1, g.groups)
        if hostile and rng.random() < 0.3:
            p += f"(?({n})a|b)"
        else:
            p += f"\\{n}" + ("?" if rng.random() < 0.3 else "")
    return p


def run_regex(rec):
    rng = rec.rng
    n = 0
    for _ in rec.loop(10**6):
        if n >= (12 if rec.quick else 60):
            break
        p = rand_pattern(rng)
        flags = 0
        for f in (re.I, re.M, re.S, re.A):
            if rng.random() < 0.2:
                flags |= f
        try:
            rx = re.compile(p, flags)
        except (re.error, OverflowError):
            continue
        n += 1
        full = rng.random() < 0.5
        kw, allowed = {}, None
        r = rng.random()
        if r < 0.3:
            allowed = rng.choice(["ab", "abcAB01", "abc01 \n", "aA", "01b\n"])
            kw["alphabet"] = allowed
        elif r < 0.4:
            kw["alphabet"] = st.characters(max_codepoint=127)
            allowed = "".join(map(chr, range(128)))
        name = f"from_regex|{p!r} {flags} full={full} {allowed!r}"
        try:
            s = st.from_regex(rx if flags or rng.random() < 0.5 else p, fullmatch=full, **kw)
            s.validate()
        except InvalidArgument:
            rec.count("rejected_configs")
            continue
        if s.is_empty:
            continue

        def obs(v):
            if type(v) is not str:
                return f"not a str: {type(v)}"
            if full and not rx.fullmatch(v):
                return f"{v!r} does not match in full"
            if not rx.search(v):
                return f"{v!r} does not match"
            if allowed is not None and set(v) - set(allowed):
                return f"{v!r} has characters outside the alphabet"
            if allowed is None and any(0xD800 <= ord(ch) < 0xE000 for ch in v):
                return f"{v!r} has surrogates"
        rec.count("regexes")
        rec.observed(name)
        try:
            drive(rec, name, s, obs, n=30, fuzz_n=12, replay_n=12, expect_sat=False, modes="gsfr")
        except InvalidArgument:
            rec.count("rejected_configs")
        rec.sample(pattern=p, flags=flags, fullmatch=full, alphabet=allowed)


run_regex0 = run_regex1 = run_regex2 = run_regex


def run_bytesregex(rec):
    rng = rec.rng
    n = 0
    for _ in rec.loop(10**6):
        if n >= (24 if rec.quick else 60):
            break
        p = rand_pattern(rng).encode("latin-1", "replace")
        flags = 0
        for f in (re.I, re.M, re.S):
            if rng.random() < 0.2:
                flags |= f
        try:
            rx = re.compile(p, flags)
        except (re.error, OverflowError, ValueError):
            continue
        n += 1
        full = rng.random() < 0.5
        name = f"from_regex-bytes|{p!r} {flags} full={full}"
        s = st.from_regex(rx, fullmatch=full)

        def obs(v):
            if type(v) is not bytes:
                return f"not bytes: {type(v)}"
            if not (rx.fullmatch(v) if full else rx.search(v)):
                return f"{v!r} does not match"
        rec.count("regexes")
        rec.observed(name)
        drive(rec, name, s, obs, n=30, fuzz_n=12, replay_n=12, expect_sat=False, modes="gsfr")


def run_regexlang(rec):
    """Finite languages: every string of the language over the alphabet is producible."""
    rng = rec.rng
    n = 0
    for _ in rec.loop(10**6):
        if n >= (16 if rec.quick else 50):
            break
        p = rand_pattern(rng, hostile=False, depth=1)
        # (a backreference which ignores case is only given the same case)
        flags = re.I if rng.random() < 0.2 and not re.search(r"\\\d|\(\?P=", p) else 0
        try:
            rx = re.compile(p, flags)
        except re.error:
            continue
        alpha = "".join(rng.sample("abAB01", rng.randint(2, 3)))
        maxlen = 5
        want = {w for k in range(maxlen + 1) for w in map("".join, itertools.product(alpha, repeat=k))
                if rx.fullmatch(w)}
        if not want or len(want) > 60:
            continue
        n += 1
        name = f"from_regex-lang|{p!r} {flags} {alpha!r}"
        try:
            s = st.from_regex(rx, fullmatch=True, alphabet=alpha)
            s.validate()
        except InvalidArgument:
            rec.count("rejected_configs")
            continue
        seen, _ = finite_values(s, n=2500, sd=rng.getrandbits(30), key=lambda v: v)
        rec.count("regexes")
        rec.count("members", len(want))
        for w in want:
            rec.observed((name, w))
        missing = want - set(seen)
        if missing:
            missing = set(produces(s, missing, n=4000, seeds=(5, 6)))
        rec.check(not missing, "regex-incomplete",
                  f"{name}: never gives {sorted(missing)[:5]} ({len(want)} members)")
        for v in seen:
            rec.check(rx.fullmatch(v) and not set(v) - set(alpha), "regex-extra", f"{name}: {v!r}")
        rec.sample(pattern=p, alphabet=alpha, language=len(want))


run_regexlang0 = run_regexlang1 = run_regexlang2 = run_regexlang


def run(unit, rec):
    globals()["run_" + unit["kind"]](rec)
