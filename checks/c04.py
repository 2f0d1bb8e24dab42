"""C04: dates, times, timezones, UUIDs, addresses, domains, urls."""
import calendar
import datetime as dt
import email.utils
import ipaddress
import random
import re
import string
import urllib.parse
import uuid
import zoneinfo

from hypothesis import provisional, strategies as st

from hv.util import drive, extremes, finite_values, stable_hash

INFO = dict(
    technique="runtime monitoring: standard-library oracles over values seen by tests in every engine mode",
    level="exploration",
    rule="One evaluation = one value seen by a test in any engine mode (generation, shrinking, "
         "fuzzing, replay of arbitrary choices, targeting, extreme backend), or one "
         "endpoint/member of a small interval looked for. Non-trivial = distinct configuration or "
         "distinct member.",
    floors={"configs": 30, "endpoints": 40, "members": 300, "executions_s": 200,
            "executions_r": 50, "executions_f": 100},
)
KINDS = ["datetimes", "datetimes_tz", "dates", "times", "timedeltas", "small", "zones", "uuids", "ips",
         "domains", "emails_urls"]


def units(tier, seed):
    reps = 1 if tier == "quick" else 10
    return [dict(name=f"{k}-{i}", kind=k, timeout=800) for i in range(reps) for k in KINDS]


def rand_date(rng):
    k = rng.randrange(6)
    if k == 0:
        return rng.choice([dt.date.min, dt.date.max, dt.date(2000, 1, 1), dt.date(2000, 2, 29),
                           dt.date(1999, 12, 31), dt.date(1900, 2, 28), dt.date(2024, 2, 29),
                           dt.date(1970, 1, 1), dt.date(9999, 1, 1), dt.date(1, 12, 31)])
    if k == 1:
        y, m = rng.randint(1, 9999), rng.randint(1, 12)
        return dt.date(y, m, rng.choice([1, calendar.monthrange(y, m)[1]]))
    if k == 2:
        return dt.date(rng.randint(1995, 2005), rng.randint(1, 12), rng.randint(1, 28))
    return dt.date.fromordinal(rng.randint(1, dt.date.max.toordinal()))


def rand_time(rng):
    k = rng.randrange(4)
    if k == 0:
        return rng.choice([dt.time.min, dt.time.max, dt.time(12), dt.time(23, 59, 59),
                           dt.time(0, 0, 0, 1), dt.time(0, 59, 59, 999999)])
    return dt.time(rng.choice([0, 23, rng.randrange(24)]), rng.choice([0, 59, rng.randrange(60)]),
                   rng.choice([0, 59, rng.randrange(60)]), rng.choice([0, 999999, rng.randrange(10**6)]))


def near(rng, d):
    step = dt.timedelta(days=rng.choice([0, 1, 1, 30, 400]), seconds=rng.choice([0, 1, 3600]),
                        microseconds=rng.choice([0, 1, 10]))
    try:
        return d + step
    except OverflowError:
        return d


def inside(kind, lo, hi):
    def obs(v):
        if type(v) is not kind:
            return f"{v!r} is a {type(v).__name__}"
        if getattr(v, "tzinfo", None) is not None:
            return f"{v!r} is not naive"
        if not lo <= v <= hi:
            return f"{v!r} is not in {lo!r}..{hi!r}"
    return obs


def ends(rec, name, s, lo, hi, strip=lambda v: v):
    rec.count("endpoints", 2)
    a = {strip(v) for v in extremes(s, rec.rng, "min")}
    rec.check(a == {lo}, "endpoint", f"{name}: with all choices least: {a}, not {lo!r}")
    b = {strip(v) for v in extremes(s, rec.rng, "max")}
    rec.check(b == {hi}, "endpoint", f"{name}: with all choices greatest: {b}, not {hi!r}")
    rec.observed((name, "ends"), 2)


def run_datetimes(rec):
    rng = rec.rng
    for _ in rec.loop(16 if rec.quick else 100):
        lo = dt.datetime.combine(rand_date(rng), rand_time(rng))
        hi = dt.datetime.combine(rand_date(rng), rand_time(rng)) if rng.random() < 0.6 else near(rng, lo)
        lo, hi = min(lo, hi), max(lo, hi)
        kw = {}
        k = rng.randrange(5)
        if k != 0:
            kw["min_value"] = lo
        else:
            lo = dt.datetime.min
        if k != 1:
            kw["max_value"] = hi
        else:
            hi = dt.datetime.max
        if rng.random() < 0.3:
            kw["allow_imaginary"] = False
        s = st.datetimes(**kw)
        name = f"datetimes|{kw}"
        rec.count("configs")
        rec.observed(name)
        drive(rec, name, s, inside(dt.datetime, lo, hi), n=60, fuzz_n=25, replay_n=25)
        ends(rec, name, s, lo, hi, lambda v: v.replace(fold=0))
        rec.sample(config=name)


def run_dates(rec):
    rng = rec.rng
    for _ in rec.loop(24 if rec.quick else 150):
        lo = rand_date(rng)
        hi = rand_date(rng) if rng.random() < 0.6 else near(rng, lo)
        lo, hi = min(lo, hi), max(lo, hi)
        s = st.dates(lo, hi)
        name = f"dates|{lo} {hi}"
        rec.count("configs")
        rec.observed(name)
        drive(rec, name, s, inside(dt.date, lo, hi), n=60, fuzz_n=25, replay_n=25)
        ends(rec, name, s, lo, hi)
    ends(rec, "dates()", st.dates(), dt.date.min, dt.date.max)
    for kw, lo, hi in [(dict(min_value=dt.date(9999, 12, 30)), dt.date(9999, 12, 30), dt.date.max),
                       (dict(max_value=dt.date(1, 1, 3)), dt.date.min, dt.date(1, 1, 3))]:
        ends(rec, f"dates {kw}", st.dates(**kw), lo, hi)


def run_times(rec):
    rng = rec.rng
    zones = [dt.timezone.utc, zoneinfo.ZoneInfo("Europe/Dublin"), None]
    for i in rec.loop(20 if rec.quick else 150):
        lo, hi = sorted([rand_time(rng), rand_time(rng)])
        if rng.random() < 0.2:
            hi = lo
        s = st.times(lo, hi)
        name = f"times|{lo} {hi}"
        rec.count("configs")
        rec.observed(name)
        drive(rec, name, s, inside(dt.time, lo, hi), n=60, fuzz_n=25, replay_n=25)
        ends(rec, name, s, lo, hi, lambda v: v.replace(fold=0))
        if i % 4 == 0:
            s = st.times(lo, hi, timezones=st.sampled_from(zones))

            def obs(v):
                if type(v) is not dt.time or v.tzinfo not in zones or not lo <= v.replace(tzinfo=None) <= hi:
                    return f"{v!r}"
            drive(rec, f"times-tz|{lo} {hi}", s, obs, n=40, fuzz_n=15, replay_n=15)
    ends(rec, "times()", st.times(), dt.time.min, dt.time.max, lambda v: v.replace(fold=0))


def run_timedeltas(rec):
    rng = rec.rng

    def one():
        k = rng.randrange(5)
        if k == 0:
            return rng.choice([dt.timedelta.min, dt.timedelta.max, dt.timedelta(0),
                               dt.timedelta(microseconds=-1), dt.timedelta(days=1),
                               dt.timedelta(seconds=86399, microseconds=999999)])
        if k == 1:
            return dt.timedelta(microseconds=rng.randint(-5, 5))
        return dt.timedelta(days=rng.choice([0, -1, 1, rng.randint(-10**6, 10**6)]),
                            seconds=rng.choice([0, 86399, rng.randrange(86400)]),
                            microseconds=rng.choice([0, 999999, rng.randrange(10**6)]))
    for _ in rec.loop(24 if rec.quick else 150):
        lo, hi = sorted([one(), one()])
        kw = dict(min_value=lo, max_value=hi)
        k = rng.randrange(6)
        if k == 0:
            del kw["min_value"]
            lo = dt.timedelta.min
        elif k == 1:
            del kw["max_value"]
            hi = dt.timedelta.max
        s = st.timedeltas(**kw)
        name = f"timedeltas|{lo!r} {hi!r}"
        rec.count("configs")
        rec.observed(name)
        drive(rec, name, s, inside(dt.timedelta, lo, hi), n=60, fuzz_n=25, replay_n=25)
        ends(rec, name, s, lo, hi)


def run_small(rec):
    """Every member of a small interval is produced."""
    rng = rec.rng
    us = dt.timedelta(microseconds=1)
    for _ in rec.loop(40 if rec.quick else 200):
        k = rng.randrange(5)
        if k == 0:
            lo = rand_date(rng)
            n = rng.choice([0, 1, 2, 5, 33, 70])
            hi = dt.date.fromordinal(min(lo.toordinal() + n, dt.date.max.toordinal()))
            s, step = st.dates(lo, hi), dt.timedelta(days=1)
            want = {dt.date.fromordinal(o) for o in range(lo.toordinal(), hi.toordinal() + 1)}
        elif k == 1:
            lo = dt.datetime.combine(rand_date(rng), rand_time(rng))
            n = rng.choice([0, 1, 3, 20])
            want = set()
            for i in range(n + 1):
                try:
                    want.add(lo + i * us)
                except OverflowError:
                    pass
            s = st.datetimes(lo, max(want))
        elif k == 2:
            base = dt.datetime.combine(dt.date(2000, 1, 1), rand_time(rng))
            want = {(base + i * us).time() for i in range(rng.choice([1, 2, 5, 20]))
                    if (base + i * us).day == 1}
            s = st.times(min(want), max(want))
        elif k == 3:
            base = rng.choice([dt.timedelta(0), dt.timedelta(days=-1), dt.timedelta(microseconds=-3),
                               dt.timedelta(seconds=86399, microseconds=999998),
                               dt.timedelta.min, dt.timedelta.max - 6 * us])
            want = {base + i * us for i in range(rng.choice([1, 2, 7]))}
            s = st.timedeltas(min(want), max(want))
        else:
            # a filtered date strategy: whole months between, with unbounded days
            y, m = rng.randint(1, 9998), rng.randint(1, 12)
            lo = dt.date(y, m, rng.randint(1, 28))
            hi = dt.date.fromordinal(lo.toordinal() + rng.choice([61, 95, 130]))
            s = st.dates(lo, hi)
            want = {dt.date.fromordinal(o) for o in range(lo.toordinal(), hi.toordinal() + 1)}
        rec.count("configs")
        rec.count("members", len(want))
        seen, calls = finite_values(s, n=2 * len(want) * 4 + 200, sd=rng.getrandbits(30),
                                    key=lambda v: v.replace(fold=0) if hasattr(v, "fold") else v)
        for w in want:
            rec.observed((k, w))
        missing = want - set(seen)
        if missing:
            missing -= set(finite_values(s, n=20 * len(want) + 2000, sd=1,
                                         key=lambda v: v.replace(fold=0) if hasattr(v, "fold") else v)[0])
        rec.check(not missing, "small-incomplete", f"{s!r}: never gives {sorted(missing)[:3]}")
        rec.check(set(seen) <= want, "small-extra", f"{s!r}: gives {sorted(set(seen) - want)[:3]}")
    # the ends of wide ranges of each component are reachable
    mem = set()
    for _ in range(150 if rec.quick else 1000):
        for v in extremes(st.datetimes(dt.datetime(1999, 5, 6, 7, 8, 9, 10), dt.datetime(2004, 8, 9, 10, 11, 12, 13)),
                          rng, None):
            mem |= {("Y", v.year), ("m", v.month), ("H", v.hour), ("M", v.minute), ("S", v.second),
                    ("u", v.microsecond), ("last", v.day == calendar.monthrange(v.year, v.month)[1]),
                    ("first", v.day == 1)}
    for w in [("Y", 1999), ("Y", 2004), ("m", 1), ("m", 12), ("H", 0), ("H", 23), ("M", 0), ("M", 59),
              ("S", 0), ("S", 59), ("u", 0), ("u", 999999), ("last", True), ("first", True)]:
        rec.observed(w)
        rec.check(w in mem, "component-range", f"datetimes: component {w} is never reached")


def exists(v):
    """Does this zoneinfo/fixed-offset datetime exist (independently of dateutil's trick)?"""
    try:
        off = v.utcoffset()
        if off is None:
            return True
        naive = v.replace(tzinfo=None)
        utc = naive - off
        back = v.tzinfo.fromutc(utc.replace(tzinfo=v.tzinfo))
        return back.replace(tzinfo=None) == naive
    except OverflowError:
        return False


def run_datetimes_tz(rec):
    rng = rec.rng
    names = ["UTC", "Europe/London", "Europe/Dublin", "Australia/Lord_Howe", "America/New_York",
             "Pacific/Apia", "Asia/Kathmandu", "Africa/Monrovia", "America/Sao_Paulo", "Asia/Tehran"]
    zones = [zoneinfo.ZoneInfo(n) for n in names] + [
        None, dt.timezone.utc, dt.timezone(dt.timedelta(hours=14)), dt.timezone(-dt.timedelta(hours=23, minutes=59))]
    gaps = [("Europe/London", dt.datetime(2020, 3, 29, 1, 0)), ("America/New_York", dt.datetime(2021, 3, 14, 2)),
            ("Australia/Lord_Howe", dt.datetime(2019, 10, 6, 2)), ("Pacific/Apia", dt.datetime(2011, 12, 30))]
    for i in rec.loop(16 if rec.quick else 100):
        lo = dt.datetime.combine(rand_date(rng), rand_time(rng))
        hi = dt.datetime.combine(rand_date(rng), rand_time(rng))
        lo, hi = min(lo, hi), max(lo, hi)
        imaginary = rng.random() < 0.5
        zs = st.sampled_from(zones)
        pool = zones
        expect = False
        if i % 2:
            zn, gap = rng.choice(gaps)
            pool = [zoneinfo.ZoneInfo(zn)]
            zs = st.sampled_from(pool)
            lo, hi = gap - dt.timedelta(minutes=5), gap + dt.timedelta(minutes=20)
            expect = True
        kw = {} if imaginary and rng.random() < 0.5 else {"allow_imaginary": imaginary}
        s = st.datetimes(lo, hi, timezones=zs, **kw)
        name = f"datetimes-tz|{lo} {hi} {kw} {'gap' if i % 2 else ''}"
        seen_gap = [False, False]

        def obs(v):
            if type(v) is not dt.datetime:
                return f"{v!r}"
            if not any(v.tzinfo is z for z in pool):
                return f"{v!r}: tzinfo is not from the strategy"
            if not lo <= v.replace(tzinfo=None) <= hi:
                return f"{v!r}: naive part is out of bounds"
            real = exists(v)
            seen_gap[real] = True
            if not imaginary and not real:
                return f"{v!r} is imaginary"
        rec.count("configs")
        rec.observed(name)
        drive(rec, name, s, obs, n=60, fuzz_n=25, replay_n=25, expect_sat=expect)
        if i % 2:
            rec.check(seen_gap[1], "no-real-datetime", f"{name}: nothing real was given")
            if imaginary:
                rec.check(seen_gap[0], "no-imaginary-datetime", f"{name}: nothing imaginary was given")
    # one particular zone per run, through the extras
    for mod in ("dateutil", "pytz"):
        m = __import__(f"hypothesis.extra.{mod}", fromlist=["timezones"])
        for _ in range(2 if rec.quick else 6):
            lo, hi = sorted(dt.datetime.combine(rand_date(rng), rand_time(rng)) for _ in "ab")
            imaginary = rng.random() < 0.5

            def obs(v):
                if type(v) is not dt.datetime or v.tzinfo is None:
                    return f"{v!r} is not aware"
                if not lo <= v.replace(tzinfo=None) <= hi:
                    return f"{v!r}: naive part is out of bounds"
                if not imaginary and mod == "dateutil":
                    import dateutil.tz
                    try:
                        if not dateutil.tz.datetime_exists(v):
                            return f"{v!r} is imaginary"
                    except OverflowError:
                        pass
                if not imaginary and mod == "pytz":
                    try:
                        if v.tzinfo.normalize(v).replace(tzinfo=None) != v.replace(tzinfo=None):
                            return f"{v!r} is imaginary"
                    except OverflowError:
                        pass
            drive(rec, f"datetimes-{mod}|{lo} {hi} {imaginary}",
                  st.datetimes(lo, hi, timezones=m.timezones(), allow_imaginary=imaginary), obs,
                  n=50, fuzz_n=15, replay_n=15, expect_sat=False)

        def obs(v):
            if not isinstance(v, dt.tzinfo):
                return f"{v!r} is no tzinfo"
        drive(rec, f"timezones-{mod}|", m.timezones(), obs, n=60, fuzz_n=20, replay_n=10)


def run_zones(rec):
    avail = zoneinfo.available_timezones()

    def key_ok(allow_prefix):
        def obs(v):
            if type(v) is not str:
                return f"{v!r}"
            base = v
            for p in ("posix/", "right/"):
                if v.startswith(p):
                    if not allow_prefix:
                        return f"{v!r} has a prefix"
                    base = v[len(p):]
            if base not in avail:
                return f"{v!r} is not available"
            zoneinfo.ZoneInfo(v)
        return obs
    for allow in (True, False):
        rec.count("configs")
        drive(rec, f"timezone_keys|{allow}", st.timezone_keys(allow_prefix=allow), key_ok(allow),
              n=300, fuzz_n=60, replay_n=40)
    drive(rec, "timezone_keys|default", st.timezone_keys(), key_ok(True), n=100)
    seen = {}

    def zone(cached):
        def obs(v):
            if type(v) is not zoneinfo.ZoneInfo:
                return f"{v!r}"
            if (zoneinfo.ZoneInfo(v.key) is v) is not cached:
                return f"{v!r}: caching is not as asked"
        return obs
    rec.count("configs", 2)
    drive(rec, "timezones|", st.timezones(), zone(True), n=100)
    drive(rec, "timezones|no_cache", st.timezones(no_cache=True), zone(False), n=100)
    keys, _ = finite_values(st.timezone_keys(allow_prefix=False), n=6000, sd=1, key=lambda v: v)
    rec.count("members", len(avail))
    for k in avail:
        rec.observed(k)
    usable = {k for k in avail if k != "localtime" and usable_zone(k)}
    rec.check(usable <= set(keys), "zones-missing", f"never given: {sorted(usable - set(keys))[:5]}")


def usable_zone(k):
    try:
        zoneinfo.ZoneInfo(k)
        return True
    except Exception:
        return False


def run_uuids(rec):
    import hypothesis
    rng = rec.rng
    nil = uuid.UUID(int=0)
    for _ in rec.loop(4 if rec.quick else 20):
        for version in (None, 1, 2, 3, 4, 5):
            def obs(v):
                if type(v) is not uuid.UUID:
                    return f"{v!r}"
                if v == nil:
                    return "is nil"
                if version is not None and v.version != version:
                    return f"{v!r} is version {v.version}"
            rec.count("configs")
            rec.observed(("uuids", version))
            drive(rec, f"uuids|{version}", st.uuids(version=version), obs, n=50, fuzz_n=20, replay_n=20,
                  keyfn=lambda v: str(v))

        def uniq(v):
            if len(set(v)) != len(v):
                return f"{v} has duplicates"
        drive(rec, "uuids|lists", st.lists(st.uuids(), max_size=30), uniq, n=50, fuzz_n=20, replay_n=20)
        drive(rec, "uuids|tuples", st.tuples(st.uuids(), st.uuids(version=4), st.uuids()),
              lambda v: uniq(v), n=50)
        seen = []
        drive(rec, "uuids|nil", st.uuids(allow_nil=True),
              lambda v: (seen.append(v), None if type(v) is uuid.UUID else f"{v!r}")[1], n=60)
        rec.check(nil in seen and any(v != nil for v in seen), "nil-never", "allow_nil: nil or others never seen")
    bits = 0
    anti = 0
    for v in finite_values(st.uuids(), n=200, sd=rng.getrandbits(20), key=lambda v: v.int)[0]:
        bits |= v
        anti |= ~v & (2**128 - 1)
    rec.check(bits == anti == 2**128 - 1, "uuid-bits", "some bits of uuids() never vary")


def run_ips(rec):
    rng = rec.rng
    for _ in rec.loop(24 if rec.quick else 150):
        k = rng.randrange(4)
        if k == 0:
            v = rng.choice([None, 4, 6])
            kinds = {None: (ipaddress.IPv4Address, ipaddress.IPv6Address), 4: (ipaddress.IPv4Address,),
                     6: (ipaddress.IPv6Address,)}[v]
            s = st.ip_addresses() if v is None else st.ip_addresses(v=v)
            seen = set()

            def obs(x):
                seen.add(type(x))
                if type(x) not in kinds:
                    return f"{x!r} is of the wrong version"
            name = f"ip_addresses|v={v}"
            rec.count("configs")
            drive(rec, name, s, obs, n=80, fuzz_n=25, replay_n=25)
            rec.check(seen == set(kinds), "ip-version-missing", f"{name}: only {seen}")
            continue
        version = rng.choice([4, 6])
        bits = 32 if version == 4 else 128
        plen = rng.choice([0, 1, 8, bits // 2, bits - 2, bits - 1, bits, rng.randint(0, bits)])
        base = rng.getrandbits(bits) >> (bits - plen) << (bits - plen) if plen else 0
        net = ipaddress.ip_network((base, plen)) if version == 4 or base > 2**32 else \
            ipaddress.IPv6Network((base, plen))
        kw = {"network": rng.choice([net, str(net)])}
        if rng.random() < 0.4:
            kw["v"] = version
        s = st.ip_addresses(**kw)
        name = f"ip_addresses|{kw}"
        rec.count("configs")
        rec.observed(name)

        def obs(x):
            if type(x) is not (ipaddress.IPv4Address if version == 4 else ipaddress.IPv6Address):
                return f"{x!r} is of the wrong type"
            if x not in net:
                return f"{x!r} is not in {net}"
        drive(rec, name, s, obs, n=50, fuzz_n=20, replay_n=20)
        ends(rec, name, s, net[0], net[-1])
        if net.num_addresses <= 16:
            rec.count("members", net.num_addresses)
            seen, _ = finite_values(s, n=200, sd=1, key=lambda x: x)
            rec.check(set(seen) == set(net), "net-incomplete", f"{name}: {set(net) - set(seen)}")


LABEL = re.compile(r"[a-zA-Z]([a-zA-Z0-9\-]*[a-zA-Z0-9])?")


def domain_msg(v, max_length=255, max_el=63):
    if type(v) is not str:
        return f"{v!r}"
    if len(v) > max_length:
        return f"{v!r} has length {len(v)}"
    labels = v.split(".")
    for i, lab in enumerate(labels):
        if not LABEL.fullmatch(lab) or len(lab) > 63:
            return f"{v!r}: label {lab!r} is invalid"
        if i < len(labels) - 1 and len(lab) > max_el:
            return f"{v!r}: label {lab!r} is longer than {max_el}"
        if i < len(labels) - 1 and lab[2:4] == "--":
            return f"{v!r}: label {lab!r} is reserved"
    tlds = {t.upper() for t in provisional.get_top_level_domains()}
    if labels[-1].upper() not in tlds:
        return f"{v!r}: {labels[-1]} is no top level domain"


def run_domains(rec):
    rng = rec.rng
    cfgs = [(255, 63), (4, 1), (4, 63), (255, 1), (5, 2), (10, 2), (63, 3), (20, 63)]
    for i in rec.loop(8 if rec.quick else 60):
        ml, me = cfgs[i % len(cfgs)] if i < len(cfgs) else (rng.randint(4, 255), rng.randint(1, 63))
        kw = {}
        if ml != 255:
            kw["max_length"] = ml
        if me != 63:
            kw["max_element_length"] = me
        s = provisional.domains(**kw)
        name = f"domains|{kw}"
        rec.count("configs")
        rec.observed(name)
        counts = set()

        def obs(v):
            counts.add(v.count("."))
            return domain_msg(v, ml, me)
        drive(rec, name, s, obs, n=50, fuzz_n=20, replay_n=20, metric=len)
        rec.check(max(counts, default=0) >= 1, "no-subdomains", f"{name}: never has subdomains")


URL = re.compile(r"(https?)://([^/:?#]+)(:(\d+))?/([^?#]*)(#(.*))?", re.S)
PCHARS = set(string.ascii_letters + string.digits + "-._~!$&'()*+,;=:@/")


def pct_ok(text, extra=""):
    bare = re.sub(r"%[0-9A-F]{2}", "", text)
    return set(bare) <= PCHARS | set(extra)


def run_emails_urls(rec):
    local = set(string.ascii_letters + string.digits + "!#$%&'*+-/=^_`{|}~")

    def mail(dom_msg):
        def obs(v):
            if type(v) is not str or v.count("@") != 1 or len(v) > 254:
                return f"{v!r}"
            a, d = v.split("@")
            if not 1 <= len(a) <= 64 or set(a) - local:
                return f"{v!r}: local part"
            if email.utils.parseaddr(v)[1] != v:
                return f"{v!r} is not accepted by email.utils"
            m = dom_msg(d)
            return m and f"{v!r}: {m}"
        return obs
    rec.count("configs", 3)
    drive(rec, "emails|", st.emails(), mail(domain_msg), n=150, metric=len)
    drive(rec, "emails|given", st.emails(domains=st.sampled_from(["example.com", "x.org"])),
          mail(lambda d: None if d in ("example.com", "x.org") else "not given"), n=100)
    long = st.emails(domains=st.text("ab", min_size=180, max_size=253))
    drive(rec, "emails|long", long, mail(lambda d: None if set(d) <= set("ab") else "bad"), n=60,
          expect_sat=False)
    # lengths 1 and 64 of the local part are reachable
    fixed = st.emails(domains=st.just("d.com"))
    got = {len(v.split("@")[0]) for v in extremes(fixed, rec.rng, "min")}
    rec.check(got == {1}, "email-min", f"{got}")
    got = {len(v) for v in extremes(st.emails(domains=st.sampled_from(["a" * 189])), rec.rng, "min")}
    rec.check(got == {191}, "email-len", f"{got}")
    parts = set()

    def url(v):
        if type(v) is not str:
            return f"{v!r}"
        m = URL.fullmatch(v)
        if not m:
            return f"{v!r} is no url"
        scheme, host, _, port, path, frag, f = m.groups()
        parts.update({scheme, "port" if port else "noport", "frag" if frag else "nofrag",
                      "path" if path else "nopath"})
        if port is not None and not 1 <= int(port) <= 65535:
            return f"{v!r}: port"
        if not pct_ok(path):
            return f"{v!r}: path {path!r}"
        if frag and not pct_ok(f, "?"):
            return f"{v!r}: fragment {f!r}"
        u = urllib.parse.urlsplit(v)
        if u.scheme != scheme or u.hostname != host.lower() or u.port != (int(port) if port else None) or u.query:
            return f"{v!r}: parsed as {u}"
        m = domain_msg(host)
        return m and f"{v!r}: {m}"
    for _ in rec.loop(3 if rec.quick else 20):
        drive(rec, "urls|", provisional.urls(), url, n=150, metric=len)
    rec.observed("urls")
    rec.check(len(parts) == 8, "url-parts", f"only {parts}")


def run(unit, rec):
    globals()["run_" + unit["kind"]](rec)
