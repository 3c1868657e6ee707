"""Text outside directives and macro calls."""
from rules import *
from lin import *
from coll import *
from logic import *
from tokens import *
from effects import Effects

META = dict(
    title="Text outside directives and macros comes through unchanged",
    statement="A preprocessed source contains, in order, every token outside directives, macro calls, comments and untaken branches exactly once and unchanged, with two exceptions: a line continuation (a backslash right before a newline) disappears, and # before a macro name inside a macro body puts quotes around it. A # starts a directive only at the start of a line and followed by the name of one, and nothing inside double quotes is expanded. A word is expanded when it is a defined macro other than the one being expanded.",
    over=["inputs"],
    forall="all token sequences, inside and outside of macros, quotes and branches",
    why="the fixtures compare a few outputs; a token dropped, doubled or reordered after a particular predecessor (a quote, a newline inside a macro, a backslash, a lone #) needs that very sequence",
    files=["libs/preprocessor/src/processor"],
    mech=[("walk, line, file, output", "libs/preprocessor/src/processor/mod.rs"), ("directive", "libs/preprocessor/src/processor/directives.rs"), ("whitespace", "libs/preprocessor/src/processor/whitespace.rs"), ("Output::last_symbol", "libs/workspace/src/reporting/output.rs")],
    technique="language of token kinds and outputs of the MIR event graphs, compared with a specification automaton under every combination of the conditions",
    note="That the branches of #if are decided correctly is R01, macro arguments R02, reading of macro definitions and calls R10, and what #include puts in R08.",
)

P = "hemtt_preprocessor::"
PR = "<impl hemtt_preprocessor::processor::Processor>::"
SYM = "hemtt_workspace::reporting::symbol::Symbol"
OPQ = lambda k: bool(re.search(r"Processor>?::(walk|output|line|file|directive\w*|read_pragma|call_read_args|define_\w+|next_word|current_word|skip_\w+|expect_\w+)$|defines::Defines::|::code$|Pragma::|FunctionDefinition::|fmt::|parse::parse$|::locate$|IfStates::(reading|pop|push|flip)$|Position::|Output::last_symbol$|to_string$", k))
NAMES = ("if", "else", "endif", "ifdef", "ifndef", "define", "undef", "include", "pragma")
okret = lambda e: not (e.res.op == "agg" and e.res.a[1] == "Err")


def params(b, rx):
    return [T("param", i).id for i in range(1, b.argc + 1) if re.search(rx, str(b.locals[i][0]))]


class Setup:
    """what the conditions of these functions are about"""

    def __init__(self, q, conf):
        self.q, self.conf = q, conf
        b = q.root
        self.S = Sizes(q)
        self.streams = params(b, r"PeekMoreIterator")
        self.buffers = params(b, r"Vec<.*Output")
        self.within = params(b, r"Option<&'?\w* ?str>|Option<&str>")

    def stream(self, o):
        return o.id in self.streams

    def from_param(self, t, ids):
        """is the term (part of, a view of) one of these parameters?"""
        o = self.S.follow(t)
        for _ in range(20):
            if o.id in ids:
                return True
            n = obj(o, self.q.g)
            if n.id in ids:
                return True
            if n.op in ("fld", "idx"):
                o = self.S.follow(n.a[0])
            elif n.op == "out" and n.a[0].op in ("call", "pure") and type(n.a[1]) is int and n.a[1] < len(n.a[0].a[1]):
                o = self.S.follow(n.a[0].a[1][n.a[1]])
            elif n.op == "agg" and n.a[1] == "Some":
                o = self.S.follow(n.a[3][0])
            elif n.op in ("call", "pure") and n.a[1] and n.a[0].split("::")[-1] in SAME + ("as_deref_mut", "take", "as_str", "as_mut"):
                o = self.S.follow(n.a[1][0])
            elif n is not o:
                o = n
            else:
                return False
        return False

    def text(self, t):
        """the literal a term is"""
        t = self.S.follow(t)
        for _ in range(4):
            if t.op == "ref" and type(t.a[0]) is Term:
                t = self.S.follow(t.a[0])
        m = re.fullmatch(r'"([^"]*)"', self.q.c(t)) if t.op == "str" else None
        return m.group(1) if m else None

    def truth(self, t, r, st):
        c = self.conf
        n = t.a[0].split("::")[-1] if t.op in ("call", "pure") else ""
        if n == "reading":
            return c.get("reading")
        if n == "contains_key" and "Defines" in t.a[0]:
            return c.get("defined")
        if n == "is_unsupported_builtin":
            return False
        if n == "contains" and "word" in c:
            ls = {x for x in (self.text(y) for y in elements(self.q, self.S.follow(t.a[1][0]))) if x is not None}
            if ls:
                return c["word"] in ls
        e = equality(t)
        if e:
            for x, y in ((e[0], e[1]), (e[1], e[0])):
                s = self.text(y)
                if s == "__EXEC":
                    return not e[2]
                if s is not None and "word" in c:
                    return (c["word"] == s) is e[2]
                if self.from_param(y, self.within) and not self.from_param(x, self.within) and "self" in c:
                    return c["self"] is e[2]
                if re.search(r"path\(|\.path\b", self.q.c(y)) and re.search(r"path\(|\.path\b", self.q.c(x)) and "other" in c:
                    return (not c["other"]) is e[2]
        if n in ("is_some", "is_none") and "word" in c:
            w = self.variant(t.a[1][0], r, st)
            if w:
                return (w == "Some") is (n == "is_some")
        rel = relation(t, True)
        if rel and "before" in c and all(re.search(r"start", self.q.c(x)) for x in (rel[0], rel[2])):
            a, o, b = rel
            fst = r.token(strip(a), st) is not None or "[*]" in self.q.c(a)
            if not fst:
                o = {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(o, o)
            return {"<": c["before"], ">=": not c["before"]}.get(o)
        return None

    def variant(self, t, r, st):
        if self.S.follow(t).id in self.within and "inside" in self.conf:
            return "Some" if self.conf["inside"] else "None"
        u = self.S.follow(t)
        if u.op in ("call", "pure") and LOOK.search(u.a[0]) and self.conf.get("word") in NAMES:
            return "Some"
        if self.S.follow(t).id in self.buffers and "buffer" in self.conf:
            return "Some" if self.conf["buffer"] else "None"
        return None

    def label(self, e, r, st):
        if e.kind != "call":
            return None
        n = e.name.split("::")[-1]
        if n == "output" and len(e.args) >= 3:
            k = r.token(e.args[1], st)
            where = "" if self.from_param(e.args[2], self.buffers) else " elsewhere"
            if k is not None:
                return ("out" if k[1] == 1 else f"out again {k[0]}" if k[1] == 2 else f"out early {k[0]}") + where
            made = [y.a[1] for y in subterms(self.q, self.S, e.args[1]) if y.op == "agg" and SYM in str(y.a[0])]
            return "quote" + where if made == ["DoubleQuote"] else "other text"
        if re.search(r"Processor>?::", e.name):
            if n == "define_use" and st.get("cur") is not None:
                return "use"
            return n
        if n in ("push", "pop", "extend", "insert", "truncate", "clear", "append", "remove", "drain", "retain") and e.args and type(e.args[0]) is Term and self.from_param(e.args[0], self.buffers):
            return "buffer " + n
        return None


def strip(t):
    for _ in range(12):
        if t.op == "fld":
            t = t.a[0]
        elif t.op in ("call", "pure") and t.a[1]:
            t = t.a[1][0]
        else:
            break
    return t


def elements(q, t):
    if t.op == "ref" and type(t.a[0]) is Term:
        t = Sizes(q).follow(t.a[0])
    return [x for x in t.a[3] if type(x) is Term] if t.op == "agg" else []


def subterms(q, S, t, d=0):
    t = S.follow(t)
    yield t
    if d < 8:
        for x in t.a:
            for y in x if isinstance(x, tuple) else (x,):
                if type(y) is Term:
                    yield from subterms(q, S, y, d + 1)


def reader(q, groups, without=(), **conf):
    s = Setup(q, conf)
    ks = classes(q, [v if isinstance(v, str) else v[0] for v in q.p.variants(SYM)], [g.split("|") for g in groups])
    ks = [k for k in ks if k not in without]
    return Reader(q, s.stream, ks, s.label, s.truth, s.variant), ks


def whitespace(ctx):
    p = ctx.p
    W = P + "processor::whitespace::" + PR
    SP = ("Whitespace", "Comment")
    ctx.rule("white space is skipped up to the next token, lines up to behind the newline; with a buffer everything skipped is put out")
    for buf in (True, False):
        out = ["out"] if buf else []
        q = thread(ctx.query(p.find(W + "skip_whitespace"), opaque=OPQ))
        r, ks = reader(q, ["Whitespace", "Comment"], buffer=buf)
        same(ctx, f"skip_whitespace.{buf}", r, machine("s", lambda s, k: [(["take"] + out, "s")] if k in SP else [([], "leave")], ks), "exactly the white space and comments ahead are skipped" + (" and put out" if buf else ""), lambda e: True)
        q = thread(ctx.query(p.find(W + "skip_to_after_newline"), opaque=OPQ))
        r, ks = reader(q, ["Newline"], buffer=buf)
        same(ctx, f"skip_to_after_newline.{buf}", r, machine("s", lambda s, k: [([], "leave")] if k == "end" else [(["take"] + out, "ok" if k == "Newline" else "s")], ks), "everything up to and with the newline is skipped" + (" and put out" if buf else ""), lambda e: True)
    q = thread(ctx.query(p.find(W + "expect_nothing_to_newline"), opaque=OPQ))
    r, ks = reader(q, ["Newline", "Eoi", "Whitespace|Comment"])
    same(ctx, "expect_nothing_to_newline", r, machine("s", lambda s, k: [([], "leave")] if k == "end" else [(["take"], "ok")] if k in ("Newline", "Eoi") else [(["take"], "s")] if k in SP else [], ks), "only white space may come before the newline, which is taken", okret)


def walk(ctx):
    p = ctx.p
    f = p.find(P + "processor::Processor::walk")
    ctx.rule("walk puts out every token it takes exactly once and in order, expands defined words, and hands directives over")
    q0 = ctx.query(f, opaque=OPQ)
    named = set()
    s = Setup(q0, {})
    for e in q0.events():
        for t in [a for a in e.args if type(a) is Term] if e.kind in ("call", "br") else ():
            for u in [t, s.S.follow(t)] + (list(equality(t)[:2]) if equality(t) else []):
                named |= {x for x in (s.text(y) for y in [u] + elements(q0, u)) if x is not None}
    named = tuple(sorted(x for x in named - set(NAMES) - {"__EXEC"} if re.fullmatch(r"\w+", x)))
    for reading in (True, False):
        for inside in (True, False):
            for defined in (True, False):
                for own in (True, False) if inside else (False,):
                    for word in NAMES + named + ("other",) if reading and not inside and not defined else ("if", "other"):
                        for other, before in ((True, True), (True, False), (False, True), (False, False)) if inside and defined and word == "other" else ((True, True),):
                            conf = dict(reading=reading, inside=inside, defined=defined, word=word, other=other, before=before)
                            conf["self"] = own
                            one(ctx, f, conf)


def one(ctx, f, conf):
    q = thread(ctx.query(f, opaque=OPQ))
    r, ks = reader(q, ["Word", "Directive", "Newline", "DoubleQuote", "Eoi", "Whitespace"], without=("Comment",), **conf)

    def step(s, k):
        quoted, blank, mark = s
        end = ["quote"] if mark else []
        if mark == "looked" or mark is True:
            pass
        if k == "end":
            return [([], "leave")]
        if k == "Eoi":
            return [([], "leave")]
        if k == "DoubleQuote":
            return [(["take", "out"], (not quoted, False, False))]
        if k == "Whitespace":
            return [(["take", "out"], (quoted, blank, False))]
        if quoted:
            return [(["take", "out"], (quoted, False, False))]
        if k == "Word":
            if not conf["reading"]:
                return [(["take"] + end, (quoted, False, False))]
            if conf["defined"] and not conf["self"]:
                return [(["use@"] + end, (quoted, False, False))]
            return [(["take", "out"] + end, (quoted, False, False))]
        if k == "Newline":
            return [(["take", "out"], "ok" if not conf["inside"] else (quoted, True, False))]
        if k == "Directive":
            if blank and conf["word"] in NAMES:
                return [(["directive@"], (quoted, True, False))]
            if conf["inside"] and conf["defined"] and (conf["other"] or conf["before"]):
                return [(["take"], (quoted, blank, "open"))]
            return [(["take", "out"], (quoted, blank, False))]
        return [(["take", "out"], (quoted, False, False))]

    def full(s, k):
        if s[2] == "open":
            x = (s[0], s[1], True)
            if k == "Word":
                return [(["quote"] + ls, t) for ls, t in step(x, k)]
            return [(["out"] + ls, t) for ls, t in step((s[0], s[1], False), k)]
        return step(s, k)
    key = "walk." + ".".join(k if v is True else str(v) for k, v in conf.items() if v is not False)
    same(ctx, key, r, machine((False, True, False), full, ks), f"tokens of a line ({', '.join(k if v is True else f'{k} {v}' if v else f'not {k}' for k, v in conf.items())})", okret)


def flow(ctx):
    p = ctx.p
    ctx.rule("a file is its lines, a line is leading space and a directive or the rest")
    q0 = ctx.query(p.find(P + "processor::Processor::line"), opaque=OPQ)
    D = r"directive\(.*\)\?"
    for reading in (True, False):
        for taken in (True, False):
            s = Setup(q0, dict(reading=reading))
            q = settle(q0, [(D, [taken])], known=lambda q: lambda t: reading if t.op in ("call", "pure") and t.a[0].endswith("IfStates::reading") else None)
            r, ks = reader(q, [], reading=reading)
            r.kinds = ("any",)
            rest = [] if taken else ["walk@any"] if reading else ["skip_to_after_newline@any"]
            ls = ["skip_whitespace@any", "directive@any"] + rest + ["left:any"]
            same(ctx, f"line.{reading}.{taken}", r, word(ls), f"a line {'in a taken branch' if reading else 'outside of taken branches'} {'that is a directive' if taken else ''}", okret)
            for e in q.events(lambda e: e.kind == "call" and re.search(r"Processor>?::(walk|skip_to_after_newline|skip_whitespace|directive)$", e.name)):
                n = e.name.split("::")[-1]
                s = Setup(q, {})
                bufs = [a for a in e.args if type(a) is Term and s.from_param(a, s.buffers) or some(q, a) is not None and s.from_param(some(q, a), s.buffers)]
                opts = [a for a in e.args[1:] if type(a) is Term and s.S.follow(a).op == "agg" and s.S.follow(a).a[1] == "None"]
                want = {"walk": (1, 2), "directive": (1, 0), "skip_whitespace": (1, 0), "skip_to_after_newline": (0, 1)}[n]
                ctx.expect(f"line.{n}", (len(bufs), len(opts)) == want, {"walk": "the line is put out, outside of any macro", "directive": "what a directive puts out goes with the rest", "skip_whitespace": "leading space is put out", "skip_to_after_newline": "nothing of an untaken line is put out"}[n], where=e.where(), detail=f"{len(bufs)} {len(opts)}")
    q = thread(ctx.query(p.find(P + "processor::Processor::file"), opaque=OPQ))
    r, ks = reader(q, ["Eoi"])
    same(ctx, "file", r, machine("s", lambda s, k: [([], "leave")] if k in ("end", "Eoi") else [(["line@"], "s")], ks), "lines are read up to the end", okret)
    D_ = p.find(P + "processor::directives::" + PR + "directive")
    q = thread(ctx.query(D_, opaque=OPQ))
    ctx.rule("a # and a word is a directive, anything else stays")
    for yes in (True, False):
        r, ks = reader(q, ["Directive", "Word"])
        ctx_ret = lambda e, yes=yes: okret(e) and answer(q, e) is not (not yes)
        if yes:
            sp = machine("s", lambda s, k: [(["take"], "w")] if s == "s" and k == "Directive" else [(["directive_command@"], "ok")] if s == "w" and k == "Word" else [], ks)
        else:
            sp = machine("s", lambda s, k: [([], "leave")], ks)
        same(ctx, f"directive.{yes}", r, sp, "a directive is taken" if yes else "what is no directive is left", lambda e, yes=yes: okret(e) and answer(q, e) is yes)


def answer(q, e):
    """the bool a function returns"""
    t = Sizes(q).follow(e.res)
    if t.op == "agg" and t.a[1] == "Ok":
        t = Sizes(q).follow(t.a[3][0])
    return bool(t.a[0]) if t.op == "int" else None


def some(q, a):
    a = Sizes(q).follow(a) if type(a) is Term else None
    return a.a[3][0] if a is not None and a.op == "agg" and a.a[1] == "Some" else None


def word(ls):
    t = {}
    for i, l in enumerate(ls):
        t.setdefault(i, []).append((l, i + 1))
    return NFA(t, {0}, {len(ls)})


def output(ctx):
    p = ctx.p
    ctx.rule("output: every token but comments, in taken branches, at the end of the buffer; a newline behind a backslash takes the backslash away instead")
    f = p.find(P + "processor::Processor::output")
    eff = Effects(p, lambda n, t, b: None)
    popping = {b.norm for b in p.fns.values() if b.norm.startswith(P) and len(b.locals) > 1 and re.search(r"^&mut .*Vec<.*Output", str(b.locals[1][0])) and any(p.body(k) is b for k in eff.direct(b)[1])}
    q0 = ctx.query(f, opaque=lambda k: OPQ(k) or strip_gen(k) in popping)
    kinds = [v if isinstance(v, str) else v[0] for v in p.variants(SYM)]
    LAST = r"(last|last_mut|get|peek|next_back)\(.*arg3.*\)"
    isb = lambda q: lambda e: e.kind == "call" and (e.name.split("::")[-1] in CHANGES or e.name in popping) and e.args and type(e.args[0]) is Term and Setup(q, {}).from_param(e.args[0], Setup(q, {}).buffers)
    for reading in (True, False):
        for kind in classes(q0, kinds, [["Newline"], ["Comment"], ["Escape"]]):
            for last, of in (("none", "Direct"), ("empty", "Macro"), ("Escape", "Direct"), ("Escape", "Macro"), ("Word", "Direct"), ("Word", "Macro")):
                S_ = Setup(q0, dict(reading=reading))

                def known(q):
                    T_ = Setup(q, dict(reading=reading))

                    def kn(t):
                        if t.op in ("call", "pure"):
                            n = t.a[0].split("::")[-1]
                            if n == "reading":
                                return reading
                            if n in ("is_some_and", "is_none_or", "is_ok_and", "map_or") and re.search(r"last", q.c(t)):
                                if "last_symbol" not in q.c(t) and last != "none":
                                    return None
                                return last == "Escape" or (n == "is_none_or" and last in ("none", "empty"))
                            if n == "is_empty" and T_.from_param(t.a[1][0], T_.buffers):
                                return last == "none"
                            if n in ("is_some", "is_none"):
                                v = "last_symbol" in q.c(t)
                                return (last in ("Escape", "Word") or not v and last == "empty") is (n == "is_some")
                        e = equality(t)
                        if e:
                            for x, y in ((e[0], e[1]), (e[1], e[0])):
                                m = re.search(r"Symbol::(\w+)", q.c(y))
                                if m and "last" in q.c(x):
                                    return (last == m.group(1)) is e[2]
                                if m and "arg2" in q.c(x):
                                    return (kind == m.group(1)) is e[2]
                        return None
                    return kn
                q = settle(q0, [(r"arg2\.symbol", [kind]), (r"last(_mut)?\(arg3\)", ["None" if last == "none" else "Some"]), (r"last(_mut)?\(arg3\)\?", [of]), (r"last_symbol\(.*\)", ["None" if last == "empty" else "Some"]), (r"last_symbol\(.*\)\?", [last])], known)
                r = Reader(q, lambda o: False, (), lambda e, r, st: change(q, e, isb(q), popping, of))
                r.kinds = ("any",)
                want = [] if not reading or kind == "Comment" else ["pop" if of == "Direct" else "pop inside"] if kind == "Newline" and last == "Escape" else ["push Output::Direct(arg2)"]
                same(ctx, f"output.{reading}.{kind}.{last}.{of}", r, word(want + ["left:any"]), f"{kind} after {last} of a {of}", lambda e: True)
    # removing the last token of a macro: its list is treated like a list of its own
    for name in sorted(popping):
        g0 = ctx.query(p.find(name), opaque=lambda k: strip_gen(k) in popping)
        for last in ("none", "Direct", "Macro"):
            q = settle(g0, [(r"last(_mut)?\(arg1\)", ["None" if last == "none" else "Some"]), (r"last(_mut)?\(arg1\)\?", [last])])
            got = {tuple(c for e in es if (c := change(q, e, lambda e: e.kind == "call" and e.name.split("::")[-1] in CHANGES and e.args and type(e.args[0]) is Term, {name}, last))) for es in ways(q)}
            want = {"none": ({()}, {("pop",)}), "Direct": ({("pop",)},), "Macro": ({("pop inside",)},)}[last]
            ctx.expect(f"pop.{last}", got in want, f"removing the last token of a list that ends with {last}", where=g0.root.norm, detail=str(sorted(got))[:200])
    f = p.find("hemtt_workspace::reporting::output::Output::last_symbol")
    q0 = ctx.query(f)
    for v in ("Direct", "Macro"):
        q = settle(q0, [("arg1", [v])])
        got = {q.c(Sizes(q).follow(e.res)) for e in q.events(lambda e: e.kind == "ret")}
        ok = got and all(re.search({"Direct": r"^Option::Some\(arg1\.0@Direct\.symbol\)$", "Macro": r"last\(arg1\.1@Macro\)|^Option::None$"}[v], s) for s in got)
        ctx.expect(f"last_symbol.{v}", bool(ok), "the last symbol is the token's own" if v == "Direct" else "the last symbol of a macro is that of its last part", where=f.norm, detail=str(got)[:200])


CHANGES = ("push", "pop", "extend", "insert", "truncate", "clear", "append", "remove", "drain", "retain", "swap_remove", "dedup", "resize")


def change(q, e, isb, popping, of):
    """what a call does to the list of outputs; popping: the functions that remove the last token, which
    for a list that ends with a macro are checked to remove that of the macro"""
    if e.kind == "call" and e.name in popping and "@Macro" in q.c(e.args[0]):
        return "pop inside"
    if not isb(e):
        return None
    if e.name in popping:
        return "pop" if of == "Direct" else "pop inside"
    n = e.name.split("::")[-1]
    return n + (" " + pushed(q, e) if n == "push" else " of the macro" if "@Macro" in q.c(e.args[0]) else "")


def ways(q):
    """the event sequences of the loop-free paths"""
    out, todo = [], [(0, [], frozenset())]
    while todo and len(out) < 200:
        n, es, seen = todo.pop()
        if not q.g.succ.get(n):
            out.append(es)
        for ev, m in q.g.succ.get(n, ()):
            if m >= 0 and m not in seen:
                todo.append((m, es + list(flat(ev)), seen | {m}))
    return out


def pushed(q, e):
    return q.c(Sizes(q).follow(e.args[1]))


def run(ctx):
    ctx.load(["hemtt_preprocessor", "hemtt_workspace", "hemtt_common"])
    whitespace(ctx)
    walk(ctx)
    output(ctx)
    flow(ctx)
