"""C29: generated source and patches are valid and mean what they claim."""
import ast
import inspect
import importlib.util
import json
import os
import shutil
import subprocess
import sys
import tempfile

from hypothesis import strategies as st
from hypothesis.extra import _patching, codemods

from hv.util import call, stable_hash

INFO = dict(
    technique="runtime monitoring: patches for failing examples of generated modules are applied by git to the real file and the result is compared with the "
              "original, byte for byte and as a syntax tree; generated programs with deprecated calls are rewritten by the codemods, and "
              "the calls compared with what each was written to mean and all other text byte for byte",
    level="exploration",
    rule="One evaluation = one patch, or one module rewritten. Non-trivial = distinct source texts.",
    floors={"patches": 60, "examples_added": 80, "rewritten_modules": 6, "calls": 40},
)
KINDS = ["patch0", "patch1", "codemod0", "codemod1", "codemod2", "codemod3"]


def units(tier, seed):
    reps = 1 if tier == "quick" else 8
    return [dict(name=f"{k}-{i}", kind=k, timeout=800) for i in range(reps) for k in KINDS]


def run(unit, rec):
    globals()["k_" + unit["kind"].rstrip("0123456789")](rec)


BODY = [["pass"], ["x = 1", "", "y = 2"], ['"""A text', "", "with an empty line."  '"""', "pass"], ["text = '''", "not indented", "   ", "'''", "assert text"],
        ["# only a comment", "assert x"], ["def inner():", "    return x", "", "return inner() and None"], ["s = 'a long line' + '" + "z" * 90 + "'"],
        ["if x:", "", "", "    pass"], ["t = f'''", "  {x}", "'''"]]
DECOS = [[], ["# a comment"], ["@settings(", "    max_examples=5,", ")"], ["@example(x=1, y='a')"], ["@example(x=0, y='é')  # why"], ["@deco"], ["@deco", "", "@settings(deadline=None)"]]
EX = ["x=1,\n    y='a',", "x=0,\n    y='it\\'s \"quoted\"',", "x=-5,\n    y='" + "long " * 20 + "',", "x=2,\n    y='\\n\\x00',", "x=3,  # or any other generated value\n    y='b',",
      "x=float('nan'),\n    y='',", "x=array([1]),\n    y='é∂',", "x=<object>,\n    y='',", "x=[1, {2: (3,)}],\n    y='z',", "x=data(...),\n    y='',"]


def k_patch(rec):
    cwd = os.getcwd()
    for i in rec.loop(400, 10 if rec.quick else None):
        d = tempfile.mkdtemp(prefix="hv-c29-")
        try:
            os.chdir(d)
            one_patch(rec, d, i)
        finally:
            os.chdir(cwd)
            shutil.rmtree(d, ignore_errors=True)


def one_patch(rec, d, i):
    rng = rec.rng
    name = f"hv_patched_{i}"
    nl = rng.choice(["\n"] * 5 + ["\r\n"])
    lines = ['"""Module."""', "import types", "from hypothesis import example, given, settings, strategies as st", "", "",
             "np = types.ModuleType('np')", "np.array = list", "def deco(f):", "    return f", ""]
    if rng.random() < 0.15:
        lines[2] = "import hypothesis" + nl + "from hypothesis import settings, strategies as st"
    if local := rng.random() < 0.3:
        # the module's own, so this one is meant
        lines += ["def array(x):", "    return tuple(x)", ""]
    plain = "import hypothesis" in lines[2]
    targets = []
    same = rng.choice(BODY)
    twin = None
    for k in range(rng.choice([1, 2, 3])):
        cls = rng.random() < 0.5
        body = same if rng.random() < 0.3 else rng.choice(BODY)
        fname = f"test_{k if rng.random() < 0.7 else 'same'}"
        ind = "    " if cls else ""
        if cls:
            lines.append(f"class Test{k}:")
            if rng.random() < 0.4:
                lines += ["    z = 3", ""]
        decos = rng.choice(DECOS)
        if plain:
            decos = [x.replace("@example", "@hypothesis.example") for x in decos]
        g = "@hypothesis.given" if plain else "@given"
        given = f"{g}(x=st.integers(), y=st.text())"
        ds = [given, *decos] if rng.random() < 0.5 else [*decos, given]
        if ds[0].startswith("#") and rng.random() < 0.5:
            ds = ds[1:]
        head = [*ds, f"def {fname}({'self, ' if cls else ''}x, y):"]
        src = [ind + ln if ln else "" for ln in head]
        quoted = False
        for ln in body:
            src.append(ind + "    " + ln if ln and not quoted else (ln if quoted else ""))
            if ln.count("'''") == 1 or ln.count('"""') == 1:
                quoted = not quoted
        if cls and twin and rng.random() < 0.5:
            fname, src = twin
        if cls:
            twin = fname, src
        lines += src
        lines += [""] * rng.choice([1, 2, 3])
        targets.append((f"Test{k}" if cls else None, fname))
    if rng.random() < 0.5:
        lines += ["def after():", "    return 1", ""]
    while lines[-1] == "":
        lines.pop()
    text = nl.join(lines) + (nl if rng.random() < 0.7 else "")
    with open(name + ".py", "w", encoding="utf-8", newline="") as f:
        f.write(text)
    try:
        tree = ast.parse(text)
    except SyntaxError:
        rec.count("not_python")
        return
    spec = importlib.util.spec_from_file_location(name, os.path.join(d, name + ".py"))
    mod = importlib.util.module_from_spec(spec)
    sys.modules[name] = mod
    try:
        spec.loader.exec_module(mod)
        triples, want = [], {}
        for cls, fname in targets:
            if rng.random() < 0.3 and len(targets) > 1:
                continue
            if cls is None and sum(t == (None, fname) for t in targets) > 1:
                continue  # defined twice: only the last one can be found
            func = getattr(mod if cls is None else getattr(mod, cls), fname)
            exs = rng.sample(EX, rng.choice([1, 1, 2]))
            o = call(_patching.get_patch_for, func, [(f"{fname}(\n    {e}\n)", _patching.FAIL_MSG) for e in exs])
            if o.exc is not None:
                rec.violation("no patch because of an error", dict(text=text, exs=exs, err=repr(o.exc)))
                continue
            good = [e for e in exs if "<object>" not in e]
            if o.value is None:
                if good and not any("data(...)" in e for e in exs):
                    rec.violation("no patch for examples which can be written", dict(text=text, exs=exs))
                continue
            triples.append(json.loads(json.dumps(o.value)))
            want[cls, fname] = good
        if not triples:
            return
        o = call(_patching.make_patch, triples)
        info = dict(text=text, want=repr(want))
        if o.exc is not None:
            rec.violation("no patch because of an error", dict(info, err=repr(o.exc)))
            return
        with open("p.patch", "w", encoding="utf-8", newline="") as f:
            f.write(o.value)
        rec.observed("patch:" + str(stable_hash(text + repr(want))))
        rec.count("patches")
        info["patch"] = o.value
        p = subprocess.run(["git", "apply", "p.patch"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode:
            rec.violation("the patch does not apply", dict(err=p.stdout, **info))
            return
        with open(name + ".py", encoding="utf-8", newline="") as f:
            after = f.read()
        info["after"] = after
        try:
            new = ast.parse(after)
        except SyntaxError as e:
            rec.violation("the patched file is not valid", dict(info, err=repr(e)))
            return
        check_same(rec, tree, new, want, plain, local, info)
        # nothing but added lines
        it = iter(after.splitlines(keepends=True))
        for ln in text.splitlines(keepends=True):
            for got in it:
                if got.rstrip("\r\n") == ln.rstrip("\r\n"):
                    break
            else:
                rec.violation("the patch changes other lines", dict(info, line=ln))
                break
    finally:
        sys.modules.pop(name, None)


def check_same(rec, tree, new, want, plain, local, info):
    def funcs(t):
        for node in t.body:
            if isinstance(node, ast.FunctionDef):
                yield None, node
            elif isinstance(node, ast.ClassDef):
                for sub in node.body:
                    if isinstance(sub, ast.FunctionDef):
                        yield node.name, sub
    for (c1, f1), (c2, f2) in zip(funcs(tree), funcs(new), strict=True):
        n = len(f1.decorator_list)
        extra = f2.decorator_list[n:]
        f2.decorator_list = f2.decorator_list[:n]
        exp = want.get((c1, f1.name), [])
        got = set()
        for e in extra:
            got.add(ast.dump(e))
        need = set()
        for e in exp:
            e = e if local else e.replace("array(", "np.array(")
            need.add(ast.dump(ast.parse(("hypothesis." if plain else "") + f"example(\n    {e}\n).via('discovered failure')", mode="eval").body))
        rec.count("functions")
        rec.count("examples_added", len(got))
        if got != need or len(extra) != len(need):
            rec.violation("the examples added are not those which failed", dict(func=(c1, f1.name), extra=[ast.unparse(e) for e in extra], exp=exp, **info))
    if ast.dump(tree) != ast.dump(new):
        rec.violation("the patch changes the program", info)


# ---------------------------------------------------------------- rewriting deprecated calls

# functions with the names of their parameters in the order in which they once could be given by position
FNS = {n: [p for p in inspect.signature(getattr(st, n)).parameters if (n, p) != ("floats", "allow_subnormal")]
       for n in ("fractions", "floats", "lists", "sets", "text", "dictionaries", "complex_numbers", "datetimes", "decimals", "binary", "from_regex", "characters",
                 "integers", "sampled_from", "tuples", "one_of", "booleans")}
VALUES = ["0", "1", "None", "False", "x.y", "'a'", "a + 1", "lambda q, r=1: (q, r)", "[1, 2]", "{'k': 1}", "f(min_magnitude=None)", "g(whitelist_categories=None)", "(yield_)",
          "other.fractions(0, 1, 9)", "# (" , "-1", "not a", "a if b else c"]
OLDCHARS = {"whitelist_categories": "categories", "blacklist_categories": "exclude_categories", "whitelist_characters": "include_characters",
            "blacklist_characters": "exclude_characters"}
PLAIN = ["import os", "x = fractions_(0, 1, 9)", "y  =  1 ;z=2", "def f(a, b = 1, *c, **d):\n\treturn (a,\n     b)", "# st.fractions(0, 1, 9)", "s = 'st.fractions(0, 1, 9)'",
         "class A:\n  def fractions(self, *a): return a\n\n  v = fractions(None, 0, 1, 9)", "t = obj.characters(whitelist_categories=1)", "", "", "if 1:\n    pass   ", "z = 1 \\\n  + 2",
         "w = sets.fractions(0, 1, 9)", "k = HealthCheck.too_slow", "h = HealthCheck.all", "b = obj.HealthCheck.all()", "m = complex_numbers_(min_magnitude=None)", "del x, y"]


def k_codemod(rec):
    for _ in rec.loop(20000, 8 if rec.quick else None):
        one_codemod(rec)


def one_codemod(rec):
    rng = rec.rng
    style = rng.choice(["st", "from", "as", "dotted", "strategies"])
    head = {"st": "import hypothesis.strategies as st", "from": "from hypothesis.strategies import " + ", ".join(FNS),
            "as": "from hypothesis.strategies import " + ", ".join(f"{n} as my_{n}" for n in FNS), "dotted": "import hypothesis.strategies",
            "strategies": "from hypothesis import strategies"}[style]
    prefix = {"st": "st.", "from": "", "as": "my_", "dotted": "hypothesis.strategies.", "strategies": "strategies."}[style]
    parts, calls = [head, "from hypothesis import HealthCheck, target"], []
    for _ in range(rng.choice([4, 10, 20])):
        if rng.random() < 0.5:
            parts.append(rng.choice(PLAIN))
            continue
        text, want = make_call(rng, prefix, 0)
        k = len(calls)
        calls.append(want)
        parts.append(rng.choice(["v{k} = {c}", "v{k} = {c}  # min_magnitude=None", "v{k} = ( {c}, )", "v{k} = f({c}, 1)", "v{k} = [{c} for i in j]"]).format(k=k, c=text))
    before = "\n".join(parts) + rng.choice(["\n", "", "\n\n"])
    try:
        ast.parse(before)
    except SyntaxError:
        rec.count("not_python")
        return
    o = call(codemods.refactor, before)
    info = dict(before=before)
    if o.exc is not None:
        rec.violation("the codemods fail", dict(info, err=repr(o.exc)[:300]))
        return
    after = o.value
    info["after"] = after
    rec.observed("codemod:" + str(stable_hash(before)))
    rec.count("rewritten_modules")
    try:
        tree = ast.parse(after)
    except SyntaxError as e:
        rec.violation("the rewritten code is not valid", dict(info, err=repr(e)))
        return
    again = call(codemods.refactor, after)
    if again.exc is not None or again.value != after:
        rec.violation("rewriting again changes something more", dict(info, again=again.value))
    # everything but our calls, byte for byte
    def rest(text):
        t = ast.parse(text)
        out, lines = [], text.splitlines(keepends=True)
        spans = {i for n in t.body if isinstance(n, ast.Assign) and getattr(n.targets[0], "id", "").startswith("v") and n.targets[0].id[1:].isdigit()
                 for i in range(n.lineno, n.end_lineno + 1)}
        for i, ln in enumerate(lines, 1):
            out.append(ln.partition("#")[2] if i in spans else ln)
        return "".join(out)
    if rest(before) != rest(after):
        rec.violation("other code was changed", info)
        return
    got = {n.targets[0].id: n.value for n in tree.body if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name)}
    for k, want in enumerate(calls):
        node = got[f"v{k}"]
        node = node.elts[0] if isinstance(node, ast.Tuple) else node.elt if isinstance(node, ast.ListComp) else node
        if isinstance(node, ast.Call) and getattr(node.func, "id", "") == "f" and want is not None:
            node = node.args[0]
        check_call(rec, node, want, prefix, info)


def make_call(rng, prefix, depth):
    """(text, what it means): the meaning is (function, {parameter: value}) for values as source, or a text which must stay as it is."""
    def value():
        while True:
            v = rng.choice(VALUES)
            if v != "# (":
                break
        if depth < 1 and rng.random() < 0.25:
            return make_call(rng, prefix, depth + 1)
        return v, v
    r = rng.random()
    if r < 0.08:
        return "HealthCheck.all()", ("list(HealthCheck)",)
    name = rng.choice(list(FNS))
    if r > 0.92:
        name = rng.choice(["complex_numbers", "floats"])
    params = FNS[name]
    if r < 0.25:
        name = "characters"
        chosen = rng.sample(list(OLDCHARS) + ["codec", "min_codepoint"], rng.choice([1, 2, 3]))
        args = {c: value() for c in chosen}
        text = f"{prefix}characters(" + ", ".join(f"{k}={v[0]}" for k, v in args.items())
        star = rng.random() < 0.15
        text += ", **kw" * star + ")"
        new = {OLDCHARS.get(k, k): v[1] for k, v in args.items()}
        if "categories" in new and "exclude_categories" in new and not star:
            if new["categories"] == "None":
                pass
            else:
                del new["exclude_categories"]
        elif "categories" in new and "exclude_categories" in new:
            if new["categories"] != "None":
                del new["exclude_categories"]
        if star:
            new["**"] = "kw"
        return text, ("characters", new)
    kinds = inspect.signature(getattr(st, name)).parameters
    if any(p.kind is p.VAR_POSITIONAL for p in kinds.values()) or not params:
        vs = [value() for _ in range(rng.choice([0, 1, 3]))] if params else []
        return f"{prefix}{name}(" + ", ".join(v[0] for v in vs) + ")", (name, {i: v[1] for i, v in enumerate(vs)})
    full = rng.random() < 0.35
    n = len(params) if full else rng.randint(0, len(params))
    vs = [value() for _ in range(n)]
    npos = n if full else rng.randint(0, n)
    if rng.random() < 0.1:
        # we cannot know which parameters these are
        at = rng.randint(0, n)
        texts = [v[0] for v in vs]
        texts.insert(at, "*stuff")
        return f"{prefix}{name}(" + ", ".join(texts) + ")", (name, {**{params[i]: vs[i][1] for i in range(at)}, "*": "stuff", **{(i,): vs[i][1] for i in range(at, n)}})
    texts = [v[0] if i < npos else f"{params[i]}={v[0]}" for i, v in enumerate(vs)]
    meaning = {params[i]: v[1] for i, v in enumerate(vs)}
    if name == "complex_numbers" and meaning.get("min_magnitude") == "None":
        meaning["min_magnitude"] = "0"
    if name == "characters":
        meaning = {OLDCHARS.get(k, k): v for k, v in meaning.items()}
    return f"{prefix}{name}(" + ", ".join(texts) + rng.choice(["", "", ","] if texts else [""]) + ")", (name, meaning)


def check_call(rec, node, want, prefix, info):
    if isinstance(want, str):
        if ast.unparse(node) != ast.unparse(ast.parse(want, mode="eval").body):
            rec.violation("an argument was changed", dict(info, got=ast.unparse(node), want=want))
        return
    if want is None:
        return
    if len(want) == 1:
        if ast.unparse(node) != want[0]:
            rec.violation("HealthCheck.all() was not replaced", dict(info, got=ast.unparse(node)))
        return
    name, meaning = want
    if not isinstance(node, ast.Call) or ast.unparse(node.func) != prefix + name:
        rec.violation("another function is called", dict(info, got=ast.unparse(node), want=repr(want)))
        return
    rec.count("calls")
    sig = inspect.signature(getattr(st, name))
    order = FNS[name]
    got, starred = {}, False
    varpos = any(p.kind is p.VAR_POSITIONAL for p in sig.parameters.values())
    kwonly = []
    for i, a in enumerate(node.args):
        if isinstance(a, ast.Starred):
            got["*"], starred = a.value, True
        elif starred:
            got[i - 1,] = a
        elif varpos:
            got[i] = a
        else:
            got[order[i]] = a
            kwonly.append(order[i])
    for kw in node.keywords:
        got["**" if kw.arg is None else kw.arg] = kw.value
    bad = [k for k in kwonly if sig.parameters[k].kind is inspect.Parameter.KEYWORD_ONLY]
    if bad and not starred:
        rec.violation("an argument is still given by position", dict(info, got=ast.unparse(node), bad=bad))
    if {str(k) for k in got} != {str(k) for k in meaning}:
        rec.violation("arguments were lost or moved", dict(info, got=ast.unparse(node), want=repr(want)))
        return
    for k, v in meaning.items():
        check_call(rec, got[k], v, prefix, info)
