"""Mod versions: reading, ordering and printing."""
from rules import *
from wire import *
from lin import *
from logic import *
from coll import *

META = dict(
    title="Versions are read, ordered and printed consistently",
    statement="Versions compare by major, then minor, then patch, then build number, a version without a build number being older than the same version with one, and the hash plays no part. Printing and serializing give the same text, major.minor.patch with .build and -hash appended when present, and reading takes each number from its own place: the dotted numbers before the first '-' in that order, the hash from the part after it, an error for a missing or malformed number, and no build number only when there is none. A script version file gives each number from the last word of its own #define, without the comment, and only the build number may be missing.",
    over=["inputs"],
    forall="all pairs of versions and all version texts",
    why="the tests read seven versions and compare a handful; swapped components, build numbers on one side only and malformed later components are not compared",
    files=["libs/common/src/version.rs"],
    mech=[("Version", "libs/common/src/version.rs")],
    technique="evaluation of the returned ordering in a finite order abstraction (every combination of component orders) and of path-wise output text; next-call counting automata for the parser",
    note="All paths; integer parsing and string splitting are the standard library's.",
)

FIELDS = ("major", "minor", "patch", "build")
ORD = {"Less": -1, "Equal": 0, "Greater": 1}
NAME = {v: k for k, v in ORD.items()}


def walks(q, decide, limit=4000, hist=False):
    """(events, environment) of every path from entry to a return that the decided branches leave"""
    g = q.g
    out = []
    stack = [(0, (), {}, {})]
    while stack:
        n, evs, env, cnt = stack.pop()
        if len(out) > limit:
            return None
        for i, (ev, m) in enumerate(g.succ.get(n, ())):
            if m < 0:
                continue
            es = list(flat(ev)) if ev is not None else []
            if any(e.kind == "br" and (decide(e, env, evs) if hist else decide(e, env)) is False for e in es):
                continue
            if cnt.get((n, i), 0) >= 1:
                continue
            rs = [e for e in es if e.kind == "ret"]
            if rs:
                out.append((evs + tuple(es), env))
                continue
            e2 = dict(env)
            for ph, d in g.phin.get(m, {}).items():
                if (n, i) in d and d[n, i] is not ph:
                    e2[ph] = d[n, i]
            stack.append((m, evs + tuple(es), e2, {**cnt, (n, i): 1}))
    return out


def alts(w):
    """the variants a branch is for"""
    return w if isinstance(w, tuple) else str(w).split("|")


class Order:
    """Comparison results when the order of every component is given."""

    def __init__(self, q, case):
        self.q, self.case, self.S = q, case, Sizes(q)

    def val(self, t, env, d=0):
        if d > 40:
            return None
        v = lambda x: self.val(x, env, d + 1)
        t = self.S.follow(t)
        if t in env:
            return v(env[t])
        if t.op == "phi":
            rs = [v(x) for x in self.S.edges(t).values() if x is not t]
            return rs[0] if rs and all(r == rs[0] for r in rs) else None
        if t.op == "bool":
            return bool(t.a[0])
        s = self.q.c(t)
        m = re.fullmatch(r"arg([12])\.(\w+?)(\?)?", s)
        if m:
            side, name = int(m.group(1)), m.group(2)
            if name == "build":
                if not self.case["some"][side - 1]:
                    return ("none",) if not m.group(3) else None
                f = ("F", side, name)
                return f if m.group(3) else ("some", f)
            return ("F", side, name)
        if t.op == "agg":
            if t.a[1] in ORD and t.a[0].endswith("Ordering"):
                return ("ord", ORD[t.a[1]])
            if t.a[1] == "Some" and len(t.a[3]) == 1:
                x = v(t.a[3][0])
                return None if x is None else ("some", x)
            if t.a[1] == "None":
                return ("none",)
            if t.a[0] in ("tup", "arr"):
                xs = [v(x) for x in t.a[3]]
                return None if None in xs else ("tup", tuple(xs))
        if t.op == "ref":
            return v(t.a[0])
        if t.op == "un" and t.a[0] == "Not":
            x = v(t.a[1])
            return (not x) if isinstance(x, bool) else None
        if t.op == "bin":
            a, b = v(t.a[1]), v(t.a[2])
            if isinstance(a, bool) and isinstance(b, bool):
                return {"BitAnd": a and b, "BitOr": a or b, "BitXor": a != b, "Eq": a == b, "Ne": a != b}.get(t.a[0])
            for z, w in ((a, t.a[0]), (b, t.a[0])):
                if z is False and w == "BitAnd":
                    return False
                if z is True and w == "BitOr":
                    return True
            return self.rel(t.a[0].lower(), a, b)
        if t.op in ("pure", "call"):
            n = t.a[0].split("::")[-1]
            a = [x for x in t.a[1] if x.op != "ty"]
            if n in ("cmp", "partial_cmp") and len(a) == 2:
                o = self.cmp(v(a[0]), v(a[1]))
                r = None if o is None else ("ord", o)
                return r if n == "cmp" or r is None else ("some", r)
            if n in ("eq", "ne", "lt", "le", "gt", "ge") and len(a) == 2:
                return self.rel(n, v(a[0]), v(a[1]))
            if n == "then" and len(a) == 2:
                x = v(a[0])
                return v(a[1]) if x == ("ord", 0) else x
            if n == "then_with" and len(a) == 2:
                x = v(a[0])
                if x != ("ord", 0):
                    return x
                rs = [v(y) for y in self.q.g.cbret.get(t, ())]
                return rs[0] if rs and all(r == rs[0] for r in rs) else None
            if n == "reverse" and len(a) == 1:
                x = v(a[0])
                return ("ord", -x[1]) if x and x[0] == "ord" else None
            if re.fullmatch(r"is_(eq|ne|lt|le|gt|ge)", n) and len(a) == 1:
                return self.rel(n[3:], v(a[0]), ("ord", 0))
            if n in ("is_some", "is_none") and len(a) == 1:
                x = v(a[0])
                return None if x is None else (x[0] == "some") == (n == "is_some")
            if n == "unwrap" and len(a) == 1:
                x = v(a[0])
                return x[1] if x and x[0] == "some" else None
        m = re.fullmatch(r"(.*)\?", s)
        if t.op == "fld" and t.a[2] == "Some":
            x = v(t.a[0])
            return x[1] if x and x[0] == "some" else None
        return None

    def cmp(self, a, b):
        if a is None or b is None:
            return None
        if a[0] == "F" and b[0] == "F":
            if a[2] != b[2]:
                return None
            o = self.case[a[2]]
            return 0 if a[1] == b[1] else o if a[1] == 1 else -o
        if a[0] in ("some", "none") and b[0] in ("some", "none"):
            if a[0] != b[0]:
                return -1 if a[0] == "none" else 1
            return 0 if a[0] == "none" else self.cmp(a[1], b[1])
        if a[0] == "tup" and b[0] == "tup" and len(a[1]) == len(b[1]):
            for x, y in zip(a[1], b[1]):
                o = self.cmp(x, y)
                if o != 0:
                    return o
            return 0
        if a[0] == "ord" and b[0] == "ord":
            return (a[1] > b[1]) - (a[1] < b[1])
        return None

    def rel(self, n, a, b):
        o = self.cmp(a, b)
        if o is None:
            return None
        return {"eq": o == 0, "ne": o != 0, "lt": o < 0, "le": o <= 0, "gt": o > 0, "ge": o >= 0}.get(n)

    def decide(self, e, env):
        x = self.val(e.args[0], env)
        if x is None:
            return None
        w = e.args[1]
        if isinstance(x, bool):
            return None if not isinstance(w, bool) else x is w
        has = {"some": "Some", "none": "None"}.get(x[0]) or (NAME[x[1]] if x[0] == "ord" else None)
        if has is None or e.raw != "variant":
            return None
        return has in alts(w)


def orders(ctx, p):
    ctx.rule("for every combination of orders of the components, the comparison returns that of the first that differs, an absent build number being lowest")
    f = p.find_impl("PartialOrd", "version::Version", "partial_cmp")
    q = ctx.query(f)
    cases = [dict(zip(FIELDS[:3], c)) for c in ((a, b, d) for a in (-1, 0, 1) for b in (-1, 0, 1) for d in (-1, 0, 1))]
    builds = [dict(some=(False, False), build=0), dict(some=(False, True), build=-1), dict(some=(True, False), build=1)] + [dict(some=(True, True), build=o) for o in (-1, 0, 1)]
    for c in cases:
        for b in builds:
            case = {**c, **b}
            o = Order(q, case)
            ws = walks(q, o.decide)
            got = {o.val(es[-1].res, env) for es, env in ws} if ws else {None}
            want = next((case[k] for k in FIELDS if case[k]), 0)
            tag = ",".join(f"{k} {'<=>'[case[k] + 1]}" for k in FIELDS[:3]) + ", build " + ("/".join("none" if not s else "some" for s in case["some"]) if not all(case["some"]) else "<=>"[case["build"] + 1])
            ctx.expect("order", got == {("some", ("ord", want))}, f"{tag}: the comparison gives {NAME[want]}", where=f.norm, detail=tag, witness=[f"{tag}: returned {sorted(map(str, got))}"])


def shown(q, decide, target, env0=None):
    """The texts written to the formatter on paths that succeed."""
    out = set()
    for es, env in walks(q, decide) or ():
        r = es[-1].res
        while r in env:
            r = env[r]
        if r is not None and is_err(r):
            continue
        s = ""
        for e in es:
            if e.kind != "call":
                continue
            n = e.name.split("::")[-1]
            if n in ("write_fmt", "write_str", "write_char", "pad") and len(e.args) == 2 and target(q, e.args[0]):
                s += text(q, e.args[1], env=env)
            elif n == "serialize_str" and len(e.args) == 2 and target(q, e.args[0]):
                s += text(q, e.args[1], env=env)
            elif n == "collect_str" and len(e.args) == 2:
                s += "«" + q.c(e.args[1]) + "»"
            elif n == "fmt" and len(e.args) == 2 and target(q, e.args[1]):
                s += "«" + q.c(e.args[0]) + "»"
        out.add(s)
    return out


def prints(ctx, p):
    ctx.rule("on every path the text written is that of the numbers, with build and hash exactly when present")
    formatter = lambda q, t: re.fullmatch(r"(mut\()*arg2\)*", q.c(t)) is not None
    for tr, fn in (("Display", "fmt"), ("Serialize", "serialize")):
        f = p.find_impl(tr, "version::Version", fn)
        q = ctx.query(f)
        for b in (False, True):
            for h in (False, True):
                has = {"arg1.build": b, "arg1.hash": h}

                def decide(e, env):
                    s = q.c(e.args[0])
                    if s in has and e.raw == "variant":
                        return ("Some" if has[s] else "None") in alts(e.args[1])
                    m = re.fullmatch(r"is_(some|none)\((.*)\)", s)
                    if m and m.group(2) in has and isinstance(e.args[1], bool):
                        return (has[m.group(2)] == (m.group(1) == "some")) is e.args[1]
                    return None
                want = "«arg1.major».«arg1.minor».«arg1.patch»" + (".«arg1.build?»" if b else "") + ("-«arg1.hash?»" if h else "")
                got = shown(q, decide, formatter)
                ok = got == {want} or (tr == "Serialize" and got == {"«arg1»"})
                what = f"{fn} with{'' if b else 'out'} a build number and with{'' if h else 'out'} a hash"
                ctx.expect(fn, ok, f"{what} gives {want}", where=f.norm, detail=what, witness=[f"written: {x}" for x in sorted(got)])


def args(t):
    return [x for x in t.a[1] if x.op != "ty"]


class Read:
    """Values on one path of a text reader: where in the text each number comes from."""

    def __init__(self, q, source):
        self.q, self.S, self.source = q, Sizes(q), source

    def val(self, t, env, evs, d=0):
        v = lambda x: self.val(x, env, evs, d + 1)
        t = self.S.follow(t)
        if d > 60:
            return None
        if t in env:
            return v(env[t])
        if t.op == "phi":
            rs = [v(x) for x in self.S.edges(t).values() if x is not t]
            return rs[0] if rs and all(r == rs[0] for r in rs) else None
        if t.op == "agg":
            if t.a[1] in ("Some", "Ok") and len(t.a[3]) == 1:
                x = v(t.a[3][0])
                return ("some", x) if t.a[1] == "Some" else ("ok", x)
            if t.a[1] == "None":
                return ("none",)
            if t.a[1] == "Err":
                return ("err",)
        r = self.source(self, t, env, evs, v)
        if r is not None:
            return r
        if t.op == "fld" and t.a[2] in ("Some", "Ok"):
            x = v(t.a[0])
            return x[1] if x and x[0] in ("some", "ok") else x
        if t.op in ("ref", "cast"):
            return v(t.a[0] if t.op == "ref" else t.a[1])
        if t.op in ("call", "pure"):
            n, a = t.a[0].split("::")[-1], args(t)
            if n == "parse" and len(a) == 1:
                x = v(a[0])
                return ("num", x) if x else None
            if n in ("to_string", "to_owned", "clone", "into", "from", "as_str", "deref", "as_ref") and len(a) == 1:
                return v(a[0])
        return None

    def splitter(self, t):
        """'-' or '.' of the iterator or list a part is taken from, with what is split"""
        t = self.S.follow(t)
        for _ in range(8):
            if t.op in ("call", "pure") and t.a[0].split("::")[-1] in ("collect", "into_iter", "iter", "by_ref", "peekable", "fuse", "deref") and t.a[1]:
                t = self.S.follow(t.a[1][0])
            elif t.op in ("ref", "mut") or (t.op == "out" and t.a[0].a[0].split("::")[-1] == "next"):
                t = self.S.follow(t.a[0] if t.op in ("ref", "mut") else t.a[0].a[1][0])
            else:
                break
        if t.op in ("call", "pure") and t.a[0].split("::")[-1] == "split" and len(args(t)) == 2:
            return text(self.q, args(t)[1]), args(t)[0]
        return None


def part(r, t, env, evs, v):
    """a part of the text split at '-' and '.': ("dot", k) or ("dash", k)"""
    if t.op == "param":
        return ("all",) if r.q.c(t) == "arg1" else None
    k = None
    if t.op in ("call", "pure"):
        n, a = t.a[0].split("::")[-1], args(t)
        if n == "deserialize" and [r.q.c(x) for x in a] == ["arg1"]:
            return ("all",)
        if n == "next":
            here = next((i for i, e in enumerate(evs) if e.kind == "call" and e.res is t), None)
            sp = r.splitter(a[0])
            if here is None or sp is None:
                return None
            k = sum(1 for e in evs[:here] if e.kind == "call" and e.name.split("::")[-1] == "next" and r.splitter(e.args[0]) == sp)
        elif n in ("get", "first") and r.splitter(a[0]):
            sp = r.splitter(a[0])
            k = 0 if n == "first" else a[1].a[0] if a[1].op == "int" else None
    elif t.op == "idx" and t.a[1].op == "int":
        sp = r.splitter(t.a[0])
        k = t.a[1].a[0] if sp else None
    if k is None:
        return None
    x = v(sp[1])
    if sp[0] == "-" and x == ("all",):
        return ("dash", k)
    if sp[0] == "." and x == ("dash", 0):
        return ("dot", k)
    return ("part", sp[0], x, k)


def reads_text(ctx, p):
    ctx.rule("for every number of dotted and dashed parts and every part that may be malformed, the reader returns an error or the version whose fields come from their own parts")
    fs = [p.fns[im["items"]["try_from"]] for im in p.impls if im["items"].get("try_from") in p.fns and im["self"].endswith("version::Version") and "TryFrom" in im["trait"]]
    fs.append(p.find_impl("Deserialize", "version::Version", "deserialize"))
    ctx.expect("read", len(fs) > 1, "a version is read from text")
    for f in fs:
        q = ctx.query(f)
        for dots in range(1, 5):
            for bad in (None, *range(dots)):
                for dashes in (1, 2, 3):
                    one(ctx, f, q, dots, bad, dashes)


def one(ctx, f, q, dots, bad, dashes):
    r = Read(q, part)

    def decide(e, env, evs):
        t = r.S.follow(e.args[0])
        if t in env:
            t = r.S.follow(env[t])
        s = q.c(t)
        if re.fullmatch(r"is_empty\((arg1|deserialize\(arg1\)\?)\)", s):
            return e.args[1] is False
        if e.raw != "variant":
            return None
        w = alts(e.args[1])
        if t.op in ("call", "pure"):
            n = t.a[0].split("::")[-1]
            if n == "deserialize":
                return "Ok" in w
            if n in ("next", "get", "first"):
                x = r.val(t, env, evs)
                if x and x[0] in ("dot", "dash"):
                    return ("Some" if x[1] < (dots if x[0] == "dot" else dashes) else "None") in w
            if n == "parse":
                x = r.val(t, env, evs)
                if x and x[1][0] == "dot":
                    return ("Err" if x[1][1] == bad else "Ok") in w
        x = r.val(t, env, evs)
        if x and x[0] in ("some", "none", "ok", "err"):
            return {"some": "Some", "none": "None", "ok": "Ok", "err": "Err"}[x[0]] in w
        return None
    got = set()
    for evs, env in walks(q, decide, hist=True) or ():
        t = evs[-1].res
        while t in env:
            t = env[t]
        t = r.S.follow(t)
        if t.op == "agg" and t.a[1] == "Ok":
            v = r.S.follow(t.a[3][0])
            while v in env:
                v = r.S.follow(env[v])
            if v.op == "agg" and v.a[0].endswith("version::Version"):
                got.add(tuple((n, r.val(x, env, evs)) for n, x in zip(v.a[2], v.a[3])))
            else:
                got.add(("ok", q.c(v)[:200]))
        elif is_err(t):
            got.add("Err")
        else:
            got.add(("returned", q.c(t)[:200]))
    num = lambda k: ("num", ("dot", k))
    if dots < 3 or bad is not None:
        want = "Err"
    else:
        want = (("major", num(0)), ("minor", num(1)), ("patch", num(2)), ("build", ("some", num(3)) if dots > 3 else ("none",)), ("hash", ("some", ("dash", 1)) if dashes > 1 else ("none",)))
    norm = {g if isinstance(g, str) else tuple((k, ("some", v) if k in ("build", "hash") and v and v[0] in ("num", "dash") else v) for k, v in g) if g and isinstance(g[0], tuple) else g for g in got}
    what = f"{dots} dotted part(s)" + (f", part {bad + 1} malformed" if bad is not None else "") + f", {dashes} dashed part(s)"
    ctx.expect("read.part", norm == {want}, f"{what}: " + ("an error" if want == "Err" else "each number from its own place"), where=f.norm, detail=what, witness=[f"{what}: {x}" for x in sorted(map(str, norm))] or ["no path"])


COMPONENTS = dict(major="MAJOR", minor="MINOR", patch="PATCH", build="BUILD")


def defines(q, t):
    """the define names whose lines a lookup stops at"""
    S = Sizes(q)
    out = set()
    for x in reaches(q.g, t, lambda x: x.op in ("call", "pure") and x in q.g.cbret):
        for y in q.g.cbret[x]:
            for z in reaches(q.g, y, lambda z: z.op in ("call", "pure") and z.a[0].split("::")[-1] in ("starts_with", "strip_prefix", "contains", "find")):
                n = z.a[0].split("::")[-1]
                w = text(q, args(z)[1])
                m = re.fullmatch(r"#define (\w+)", w)
                out.add(m.group(1) if m and n in ("starts_with", "strip_prefix") else f"{n} {w}")
    return out


def starts(q, z):
    """the define name that a test of the start of a line is for"""
    if z.op in ("call", "pure") and z.a[0].split("::")[-1] in ("starts_with", "strip_prefix") and len(args(z)) == 2:
        m = re.fullmatch(r"#define (\w+)", text(q, args(z)[1]))
        return m.group(1) if m else None
    return None


def looped(q, t):
    """the define names that the elements of this step of a loop are tested for"""
    if t.op not in ("call", "pure") or t.a[0].split("::")[-1] != "next":
        return set()
    out = set()
    for e in q.events(lambda e: e.kind == "br"):
        for z in reaches(q.g, e.args[0], lambda z: starts(q, z) is not None):
            if reaches(q.g, args(z)[0], lambda x: x is t):
                out.add(starts(q, z))
    return out


def bared(r, evs):
    """the path has found that there is no comment"""
    for e in evs:
        t = r.S.follow(e.args[0]) if e.kind == "br" else None
        if t is not None and e.args[1] == "None" and t.op in ("call", "pure") and t.a[0].endswith("::split_once") and text(r.q, args(t)[1]) == "//":
            return True
    return False


def line_part(r, t, env, evs, v):
    """what is left of the line of a define: ("line", names, comment removed, last word)"""
    if t.op == "agg" and len(t.a[3]) == 2 and t.a[1] not in ("Some", "Ok", "Err"):
        return ("pair", v(t.a[3][0]), v(t.a[3][1]))
    if t.op not in ("call", "pure", "fld"):
        return None
    q = r.q
    if t.op == "fld":
        if t.a[1] in ("0", "1") and t.a[2] is None or t.a[1] in ("0", "1") and t.a[2] not in ("Some", "Ok", "Err"):
            x = v(t.a[0])
            if x and x[0] == "pair":
                return x[1 + int(t.a[1])]
        return None
    n, a = t.a[0].split("::")[-1], args(t)
    if t in q.g.cbret and n in ("find", "find_map"):
        d = defines(q, t)
        bare = bared(r, evs)
        return ("line", frozenset(d), bare, False)
    if looped(q, t):
        hit = {starts(q, z) for e in evs if e.kind == "br" and e.args[1] is True for z in [r.S.follow(e.args[0])] if starts(q, z) and reaches(q.g, args(z)[0], lambda x: x is t)}
        return ("line", frozenset(hit), bared(r, evs), False)
    if not a:
        return None
    if n in ("split_once", "rsplit_once", "rsplitn", "splitn", "split", "rsplit", "split_whitespace", "split_ascii_whitespace"):
        x = v(a[0])
        if not x or x[0] != "line":
            return None
        sep = text(q, a[1]) if len(a) > 1 and "whitespace" not in n else " "
        if n == "split_once" and sep == "//":
            return ("pair", (x[0], x[1], True, x[3]), ("comment",))
        if n == "rsplit_once" and sep == " ":
            return ("pair", ("head",), (x[0], x[1], x[2], True) if x[2] else ("last word of the comment",))
        if n == "split" and sep == "//":
            return ("parts", (x[0], x[1], True, x[3]), "first")
        if n in ("split_whitespace", "split_ascii_whitespace", "split", "rsplit") and sep == " ":
            return ("parts", (x[0], x[1], x[2], True) if x[2] else ("last word of the comment",), "first" if n == "rsplit" else "last")
        return None
    if n in ("next", "next_back", "last"):
        x = v(a[0])
        if x and x[0] == "parts" and {"next": "first", "next_back": "last", "last": "last"}[n] == x[2]:
            return x[1]
        return None
    if n in ("trim", "trim_end", "trim_start") and len(a) == 1:
        return v(a[0])
    if n == "unwrap_or" and len(a) == 2:
        x, y = v(a[0]), v(a[1])
        return x
    return None


def script(ctx, p):
    ctx.rule("for every set of missing or malformed components, the script version is an error or has each number from its own define")
    f = p.find("hemtt_common::version::Version::try_from_script_version")
    q = ctx.query(f)
    for bad in [None] + list(FIELDS):
        for how in ("missing", "malformed"):
            if bad or how == "missing":
                script_one(ctx, f, q, bad, how)


def script_one(ctx, f, q, bad, how):
    r = Read(q, line_part)
    names = {v: k for k, v in COMPONENTS.items()}
    unknown = []

    def decide(e, env, evs):
        t = r.S.follow(e.args[0])
        while t in env:
            t = r.S.follow(env[t])
        if e.raw == "bool":
            x = equality(t)
            if starts(q, t) in names:
                return None if names[starts(q, t)] != bad or how != "missing" else e.args[1] is False
            if x:
                a, b = (text(q, r.S.follow(y), env=env) for y in x[:2])
                if "«" not in a + b:
                    return ((a == b) is x[2]) is e.args[1]
            return None
        if e.raw != "variant":
            return None
        w = alts(e.args[1])
        if t.op in ("call", "pure"):
            n, a = t.a[0].split("::")[-1], args(t)
            if t in q.g.cbret and n in ("find", "find_map"):
                d = {names.get(x) for x in defines(q, t)}
                if len(d) == 1:
                    return ("None" if bad in d and how == "missing" else "Some") in w
            if n == "parse":
                x = r.val(t, env, evs)
                if x and x[1] and x[1][0] == "line":
                    d = {names.get(y) for y in x[1][1]}
                    return ("Err" if bad in d and how == "malformed" else "Ok") in w
            d = {names.get(x) for x in looped(q, t)}
            if len(d) == 1:
                return None if bad in d and how == "missing" else "Some" in w
            if n in ("rsplit_once", "next", "next_back", "last"):
                x = r.val(t, env, evs)
                if x:
                    return "Some" in w
        x = r.val(t, env, evs)
        if x and x[0] in ("some", "none", "ok", "err"):
            return {"some": "Some", "none": "None", "ok": "Ok", "err": "Err"}[x[0]] in w
        return None
    got = set()
    ws = walks(q, decide, hist=True)
    for evs, env in ws or ():
        t = evs[-1].res
        while t in env:
            t = env[t]
        t = r.S.follow(t)
        if t.op == "agg" and t.a[1] == "Ok":
            v = r.S.follow(t.a[3][0])
            while v in env:
                v = r.S.follow(env[v])
            if v.op == "agg" and v.a[0].endswith("version::Version"):
                got.add(tuple((n, r.val(x, env, evs)) for n, x in zip(v.a[2], v.a[3])))
            else:
                got.add(("ok", q.c(v)[:200]))
        elif is_err(t):
            got.add("Err")
        else:
            got.add(("returned", q.c(t)[:200]))
    norm = set()
    for g in got:
        if isinstance(g, tuple) and g and isinstance(g[0], tuple):
            row = []
            for k, v in g:
                if k == "build" and v and v[0] == "num":
                    v = ("some", v)
                row.append((k, v))
            g = tuple(row)
        norm.add(g)
    num = lambda k: ("num", ("line", frozenset((COMPONENTS[k],)), True, True))
    want = "Err" if bad and bad != "build" else (("major", num("major")), ("minor", num("minor")), ("patch", num("patch")), ("build", ("none",) if bad else ("some", num("build"))), ("hash", ("none",)))
    what = f"{COMPONENTS[bad]} {how}" if bad else "all defines present"
    ok = norm == {want} or (bad == "build" and how == "malformed" and norm in ({"Err"}, {want}))
    ctx.expect("script", ok, f"{what}: " + ("an error" if want == "Err" else "each number is the last word of its own define"), where=f.norm, detail=what, witness=[f"{what}: {x}"[:400] for x in sorted(map(str, norm))] or ["no path"])


def run(ctx):
    p = ctx.load(["hemtt_common"])
    orders(ctx, p)
    prints(ctx, p)
    reads_text(ctx, p)
    script(ctx, p)
