"""Stringtables: translations, totals, sorting."""
from rules import *
from wire import *
from lin import *
from logic import *
from coll import *

META = dict(
    title="Stringtable translations keep their key and language",
    statement="Reading puts the text of a language's element, in any of its three spellings, under that language, writing puts it out under that language's own element exactly when it is present, and the writer emits every line of the table once and in order with the escapes of & undone, adding only the comments read from the file. The totals of a package count every key of the package and of its containers at every depth once, and each language once per key that has it. Sorting orders packages by name and the keys of every package and container by their id, and the sorted lint reports exactly the tables whose text differs from the sorted text.",
    over=["inputs"],
    forall="all stringtables, any set of languages per key and any nesting of containers",
    why="two fixture tables exercise a few languages at one level; a swapped or dropped language, an uncounted container or an unsorted inner container needs a table that has it",
    files=["libs/stringtable/src"],
    mech=[("Key, Package, Totals", "libs/stringtable/src/key.rs, package.rs, totals.rs"), ("Project::to_writer", "libs/stringtable/src/lib.rs"), ("sorted lint", "libs/stringtable/src/analyze/lints/01_sorted.rs")],
    technique="value analysis of accumulators over loops split by language presence, output-language automata of the writer, name tables of the generated (de)serializers; structural induction on containers",
    note="By induction on the nesting of containers. serde's derive is trusted to give element N to field N; XML parsing and formatting are quick-xml's; where comments are put back is not decided.",
)

ST = "hemtt_stringtable::"
KEY, PKG, TOT = ST + "key::Key", ST + "package::Package", ST + "totals::Totals"


def fields(p, adt):
    return [f[0] for f in p.adts[adt]["vs"][0][2]]


def accessors(ctx, p, langs):
    ctx.rule("each getter and counter of a language works on the field of that language")
    for l in langs:
        for ty, want in ((KEY, r"(as_deref\()?arg1\.%s\)?"), (TOT, r"arg1\.%s")):
            q = ctx.query(p.find(f"{ty}::{l}"))
            for v in ("Some", "None") if ty == KEY else (None,):
                if v:
                    q = settle(ctx.query(p.find(f"{ty}::{l}")), [(rf"arg1\.{l}", [v])])
                got = {q.c(e.res) for e in q.rets()}
                alike = {"Some": rf"|Option::Some\(arg1\.{l}\?\)", "None": "|Option::None"}.get(v, "")
                ctx.expect("getter", len(got) > 0 and all(re.fullmatch(want % l + alike, g) for g in got), f"{ty.split('::')[-1]}::{l} gives {l}", where=q.root.norm, detail=str(sorted(got)))
    own = {**{f"inc_{l}": l for l in langs}, "inc": "total"}
    for fn, l in own.items():
        q = ctx.query(p.find(f"{TOT}::{fn}"))
        got = {writes(q, e) for e in q.rets()}
        ctx.expect("count", got == {((l, f"(arg1.{l} Add 1)"),)}, f"{fn} adds one to {l} and nothing else", where=q.root.norm, detail=str(sorted(got))[:200])
    q = ctx.query(p.find(TOT + "::merge"))
    want = tuple(sorted((f, f"(arg1.{f} Add arg2.{f})") for f in fields(p, TOT)))
    for e in q.rets():
        got = writes(q, e)
        bad = sorted(set(want) ^ set(got))
        ctx.expect("merge", not bad, "merging adds every count to its own", where=q.root.norm, witness=[str(x) for x in bad[:6]])


def writes(q, e):
    """(field, value) left in the first parameter at a return"""
    t = (e.raw or {}).get(1) if isinstance(e.raw, dict) else None
    out = {}
    while t is not None and t.op == "with":
        out.setdefault(t.a[1], q.c(t.a[3]).replace("WithOverflow", ""))
        t = t.a[0]
    if t is not None and t.op == "agg":
        for n, v in zip(t.a[2], t.a[3]):
            if q.c(v) != "arg1." + n:
                out.setdefault(n, q.c(v).replace("WithOverflow", ""))
    return tuple(sorted(out.items()))


class Sum:
    """An accumulator as its start and what each loop adds per round."""

    def __init__(self, q):
        self.q, self.S = q, Sizes(q)
        self.back, self.memo, self.active = {}, {}, set()
        self.src = {}
        for k, head, el, ev in loop_heads(q):
            if k[0] == "n":
                self.src[ev.res] = el

    def loops(self, ph):
        """[(predecessor edge, value)] of a joined value that are entered from the join itself"""
        g = self.q.g
        m = ph.a[0]
        if m not in self.back:
            seen, todo = set(), [m]
            while todo:
                n = todo.pop()
                for ev, t in g.succ.get(n, ()):
                    if t >= 0 and t not in seen:
                        seen.add(t)
                        todo.append(t)
            self.back[m] = seen
        return [(k, v, k[0] in self.back[m]) for k, v in self.S.edges(ph).items()]

    def source(self, ph):
        """what the loop that starts at the join of ph goes through"""
        g, n = self.q.g, ph.a[0]
        for _ in range(12):
            es = [(ev, m) for ev, m in g.succ.get(n, ()) if m >= 0]
            for ev, m in es:
                for e in flat(ev) if ev is not None else ():
                    if e.kind == "call" and e.res in self.src:
                        return self.src[e.res]
                    if e.kind == "cbin" and e.args:
                        return Canon(self.q).elem(e.args[0])
            if len(es) != 1:
                return None
            n = es[0][1]
        return None

    def terms(self, t, base=None, d=0):
        """the possible sums: each a sorted tuple of addends (what loops add: (source, addends))"""
        t = self.S.follow(t)
        if t is base:
            return {()}
        if d > 200 or (t, base) in self.active:
            return {("?",)}
        if (t, base) not in self.memo:
            self.active.add((t, base))
            self.memo[t, base] = self._terms(t, base, d)
            self.active.discard((t, base))
        return self.memo[t, base]

    def _terms(self, t, base, d):
        if t.op == "int":
            return {()} if t.a[0] == 0 else {(str(t.a[0]),)}
        if t.op == "fld" and t.a[1] == "0":
            b = self.S.follow(t.a[0])
            if b.op == "phi":
                return {x for v in self.S.edges(b).values() for x in self.terms(T("fld", v, *t.a[1:]), base, d + 1)}
            if b.op == "pure" and b.a[0].startswith("checked:"):
                return self.terms(b.a[1][0], base, d + 1)
            if b.op == "bin" and b.a[0].endswith("WithOverflow"):
                t = b
        if t.op == "bin" and t.a[0].startswith("Add"):
            return {tuple(sorted(a + b, key=str)) for a in self.terms(t.a[1], base, d + 1) for b in self.terms(t.a[2], base, d + 1)}
        if t.op == "phi":
            ls = self.loops(t)
            if {b for _, _, b in ls} == {True, False}:
                out = set()
                rounds = frozenset(x for _, v, b in ls if b for x in self.terms(v, t, d + 1))
                for x in {x for _, v, b in ls if not b for x in self.terms(v, base, d + 1)}:
                    out.add(x if rounds == {()} else tuple(sorted(x + ((self.source(t), tuple(sorted(rounds, key=str))),), key=str)))
                return out
            return {x for _, v, _ in ls for x in self.terms(v, base, d + 1)}
        return {(self.q.c(t),)}


def totals(ctx, p, langs):
    ctx.rule("every loop over the keys adds one per key to the total and, exactly when the key has a language, one to that language; every loop over the containers adds their totals, each to its own")
    f = p.find(PKG + "::totals")
    q0 = ctx.query(f, opaque=lambda k: k.endswith("Package::totals") and k != f.key)
    K, C = "arg1.keys[*]", "arg1.containers[*]"
    sub = lambda x: (C, ((f"totals({C}).{x}",),))
    for l in langs:
        for v in ("Some", "None"):
            q = settle(q0, [(re.escape(K) + rf"\.{l}", [v])])
            want = {tuple(sorted((((K, (("1",),)),) if v == "Some" else ()) + (sub(l),), key=str))}
            total_field(ctx, q, l, want, f"{l} {'present' if v == 'Some' else 'absent'}")
    total_field(ctx, q0, "total", {tuple(sorted(((K, (("1",),)), sub("total")), key=str))}, "keys")
    ctx.expect("totals.all", leaves_early(q0, lambda el: True) is None, "no key and no container is left out", leaves_early(q0, lambda el: True) or (), f.norm)


def total_field(ctx, q, l, want, what):
    s = Sum(q)
    got = set()
    for e in q.rets():
        t = s.S.follow(e.res)
        if t.op == "agg" and l in t.a[2]:
            got |= s.terms(t.a[3][t.a[2].index(l)])
        else:
            got.add((q.c(t)[:120],))
    norm = {tuple(sorted(((x[0].replace("#0", "") if x[0] else x[0], x[1]) if isinstance(x, tuple) else x for x in g), key=str)) for g in got}
    ctx.expect("totals", norm == want, f"{what}: the count is that of the keys and of the containers", where=q.root.norm, detail=what, witness=[f"counted: {x}" for x in sorted(map(str, norm))])


def ends(q, t, seen=None, hist=()):
    """the texts of a value, one for each way its lists came about"""
    if t is None:
        return [""]
    s = Sizes(q)
    t = s.follow(t)
    if t.op == "phi":
        if t in hist:
            return []
        return [x for v in s.edges(t).values() for x in ends(q, v, seen, hist + (t,))]
    if t.op == "with" and s.follow(t.a[3]).op == "phi":
        return [f"{{{t.a[1]}:={y}}}{x}" for y in ends(q, t.a[3], seen, hist) for x in ends(q, t.a[0], seen, hist)]
    if t.op == "with":
        return [f"{{{t.a[1]}:={q.c(t.a[3])}}}{x}" for x in ends(q, t.a[0], seen, hist)]
    return [q.c(t)]


def sorting(ctx, p):
    ctx.rule("sorting leaves the keys ordered by id and the packages by name, and sorts every package and container")
    for name, lst, by, inner in ((PKG, "keys", "id", "containers"), (ST + "Project", "packages", "name", "packages")):
        f = p.find(name + "::sort")
        q = ctx.query(f, opaque=lambda k, f=f: k == PKG + "::sort" or k != f.key and k.endswith("Package::sort"))
        for e in q.rets():
            t = (e.raw or {}).get(1) if isinstance(e.raw, dict) else None
            bad = [s for s in ends(q, t) if f"{lst}:=sorted<_.{by}>(arg1.{lst})" not in s]
            ctx.expect("sort.order", not bad, f"the {lst} are ordered by {by}", where=f.norm, witness=bad[:2], detail=lst)
        is_sort = lambda e: e.kind == "call" and e.name.endswith("Package::sort")
        ok, why = every_iteration(q, is_sort, elem=lambda el: inner in el and not PARTIAL.search(el))
        if not ok:  # handed over as a function
            each = lambda e: e.kind == "call" and e.name.endswith("::for_each") and q.c(e.args[0]) == "arg1." + inner and q.c(e.args[1]) == "fn:Package::sort"
            why = why or [("not every run sorts them",)]
            ok = q.path_avoiding(each, lambda e: e.kind == "ret") is None
        ctx.expect("sort.inner", ok, f"each of the {inner} is sorted", where=f.norm, witness=[str(w)[:200] for w in why] if not ok else ())
        for e in q.events(is_sort):
            ctx.expect("sort.which", re.search(rf"{inner}.*\[\*\]", q.c(e.args[0])) is not None, f"what is sorted is one of the {inner}", where=e.where(), detail=q.c(e.args[0]))


def elements(ctx, p, langs):
    ctx.rule("the generated reader maps the three spellings of a language to its field, the generated writer emits each present language under its own name")
    vs = [b for b in p.fns.values() if re.search(r"::key::.*__FieldVisitor.*::visit_str$", b.norm)]
    ctx.expect("read.visitor", len(vs) == 1, "keys are read by element name")
    order = fields(p, KEY)
    for b in vs:
        q0 = ctx.query(b)
        for i, l in enumerate(order):
            for s in ["@ID"] if l == "id" else [l, l.upper(), l.capitalize()]:

                def known(q, s=s):
                    def kn(t):
                        x = equality(t)
                        if x:
                            for a, b in ((x[0], x[1]), (x[1], x[0])):
                                if q.c(a) == "arg2" and b.op == "str":
                                    return (b.a[0] == s) is x[2]
                        return None
                    return kn
                q = settle(q0, [], known)
                got = {q.c(e.res) for e in q.rets()}
                ctx.expect("read.name", got == {f"Result::Ok(__Field::__field{i})"}, f"element {s} is {l}", where=b.norm, detail=f"{s} {sorted(got)}")
    fs = [b for b in p.fns.values() if re.search(r"::key::.*Serialize for .*key::Key>::serialize$", b.norm)]
    ctx.expect("write.serializer", len(fs) == 1, "keys are written by a serializer")
    for b in fs:
        q0 = ctx.query(b)
        for l in order:
            name = "@ID" if l == "id" else l.capitalize()
            for v in ("Some", "None") if l != "id" else (None,):
                q = settle(q0, [(rf"arg1\.{l}", [v])]) if v else q0

                def lab(e, q=q, name=name):
                    if e.kind == "call" and e.name.endswith("::serialize_field") and len(e.args) == 3:
                        k, x = text(q, e.args[1]), q.c(e.args[2])
                        if k == name or re.search(rf"arg1\.{l}\b", x):
                            return "field " + k + (" own" if re.search(rf"arg1\.{l}\b", x) and len(re.findall(r"arg1\.\w+", x)) == 1 else " of " + x[:80])
                    return None
                check_language(ctx, "write.name", q, lab, "field " + name + " own" if v != "None" else seq(), f"{l} {'present' if v != 'None' else 'absent'}")
    # every language's text is escaped the same way
    for b in p.fns.values():
        if re.search(r"::key::.*__SerializeWith.*::serialize(#\d+)?$", b.norm):
            q0 = ctx.query(b)
            q = settle(q0, [(r"arg1\.values\.0", ["Some"])])
            got = {q.c(e.res) for e in q.rets()}
            ctx.expect("write.text", got == {"serialize_str(arg2, minimal_escape(arg1.values.0?))"}, "a translation is written as it is, escaped", where=b.norm, detail=str(got)[:160])


def writer(ctx, p):
    ctx.rule("the writer puts out the header and then each line of the serialized table, with nothing but comments in between")
    f = p.find(ST + "Project::to_writer")
    q = ctx.query(f)
    isline = lambda s: re.match(r"lines\(", s) is not None

    def lab(e):
        if e.kind == "br" and e.args[1] == "Some" and re.match(r"next\(lines\(", q.c(e.args[0])):
            return "line"
        if e.kind != "call" or not e.args or not re.fullmatch(r"(mut\()*arg2\)*", q.c(e.args[0])):
            return None
        n = e.name.split("::")[-1]
        if n not in ("write_str", "write_char", "write_fmt"):
            return None
        out = []
        for x in re.split(r"(«[^»]*»)", text(q, e.args[1])):
            if not x.startswith("«"):
                out += list(x)
            elif re.search(r"meta_comments\[\*\]\.0", x):
                out.append("comment")
            elif re.fullmatch(r"«replace\(lines\(.*\)\[\*\], \"&amp;amp;\", \"&\"\)»", x):
                out.append("text")
            elif re.search(r"take_while\(chars\(lines\(.*is_whitespace", x):
                out.append("indent")
            else:
                out.append(x)
        return out
    head = list('<?xml version="1.0" encoding="utf-8"?>\n')
    spec = seq(*head, star(seq("line", star(seq("indent", "comment", "\n")), "text", "\n")))
    check_language(ctx, "writer", q, lab, spec, "header, then each line with the comments before it")
    tr = leaves_early(settle(q, [(r"write_(str|char|fmt)\(.*", ["Ok"])]), isline)
    ctx.expect("writer.all", tr is None, "no line is left out", tr or (), f.norm)
    for e in q.events(lambda e: e.kind == "call" and re.search(r"Serialize::serialize$|Project>?::serialize$", e.name)):
        ctx.expect("writer.source", q.c(e.args[0]) == "arg1", "what is written is the table itself", where=e.where(), detail=q.c(e.args[0]))


def texts(a, b):
    """are these the trimmed text of a table and what was written for it?"""
    return re.fullmatch(r"trim\(arg5\[\*\]\.2\)", a) and re.fullmatch(r"trim\(to_writer!1\((sorted<natural>\()?arg5\[\*\]\.0\)?, \"\"\)\)", b)


def lint(ctx, p):
    ctx.rule("the lint compares every table's text with the text after sorting and reports exactly those that differ")
    f = next(p.fns[im["items"]["run"]] for im in p.impls if "LintRunner" in im["trait"] and im["self"].endswith("_01_sorted::Runner") and im["items"].get("run") in p.fns)
    q0 = ctx.query(f, opaque=lambda k: bool(re.search(r"Project::(sort|to_writer)$|CodeStringtableNotSorted::new$|::trim$", k)))
    OPT = r'option\(arg3, "only-lang"\)'
    for only in (False, True):
        for differs in (True, False):

            def known(q):
                def kn(t):
                    if re.fullmatch(OPT + r"\?\.0@Boolean", q.c(t)):
                        return True
                    x = equality(t)
                    if x and any(texts(q.c(x[i]), q.c(x[1 - i])) for i in (0, 1)):
                        return (not differs) is x[2]
                    return None
                return kn
            q = settle(q0, [(OPT, ["Some" if only else "None"]), (OPT + r"\?", ["Boolean"])], known)

            def lab(e, q=q):
                if e.kind == "br" and e.args[1] == "Some" and e.args[0].op == "call" and NEXT.search(e.args[0].a[0]):
                    el = q.c(e.args[0])
                    return "table" if re.fullmatch(r"next\(arg5\)", el) else "name"
                if e.kind != "call":
                    return None
                n = e.name.split("::")[-1]
                if n == "sort" and "Project" in e.name:
                    return "sort" if re.search(r"arg5\[\*\]\.0", q.c(e.args[0])) else "sort of " + q.c(e.args[0])
                if n == "to_writer":
                    return "write" if re.search(r"arg5\[\*\]\.0", q.c(e.args[0])) else "write of " + q.c(e.args[0])
                if n == "extend" and len(e.args) == 2 and "Unsorted::Path(" in q.c(e.args[1]) and not PARTIAL.search(q.c(e.args[1])):
                    return "reports"
                if n == "push" and len(e.args) == 2:
                    s = q.c(e.args[1])
                    if "Unsorted::Paths(" in s:
                        return "report all"
                    if "Unsorted::Path(" in s:
                        return "report"
                    return "differs" if "arg5[*].1" in s else "push " + s[:80]
                return None
            each = ["table"] + ([] if only else ["sort"]) + ["write"] + (["differs"] if differs else [])
            spec = seq(star(seq(*each)), alt("reports" if any(lab(e) == "reports" for e in q.events()) else star(seq("name", "report")), "report all"))
            check_language(ctx, "lint", q, lab, spec, f"{'only languages' if only else 'keys too'}, text {'differs' if differs else 'is the same'}", accept=lambda e: True)
    for k, head, el, ev in loop_heads(q0):
        ctx.expect("lint.each", not PARTIAL.search(el), "what a loop goes through is all there is", where=ev.where(), detail=el[:160])
    tr = leaves_early(q0, lambda el: True)
    ctx.expect("lint.all", tr is None, "no table is skipped", tr or (), f.norm)


def run(ctx):
    p = ctx.load(["hemtt_stringtable"])
    langs = [f for f in fields(p, KEY) if f != "id"]
    ctx.expect("languages", set(langs) == set(fields(p, TOT)) - {"total"} and len(langs) >= 24, "keys and totals know the same languages", detail=str(len(langs)))
    accessors(ctx, p, langs)
    totals(ctx, p, langs)
    sorting(ctx, p)
    elements(ctx, p, langs)
    writer(ctx, p)
    lint(ctx, p)
