"""Macro definitions and calls as they are written."""
from rules import *
from lin import *
from coll import *
from logic import *
from tokens import *
from R09 import Setup, OPQ, PR, P, SYM, okret, some, word

META = dict(
    title="Macro definitions and calls are read as they are written",
    statement="The parameters of a #define are the words between the parentheses, separated by commas; its body is everything from the first token behind the white space to the end of the line, where a line continued with a backslash goes on without the backslash but with its newline. The arguments of a macro call are split at every comma outside double quotes and end at the matching parenthesis; macros inside them are expanded on the way, text inside double quotes is not. A definition without a body is a flag, one with a parenthesis directly behind the name a function, any other a value.",
    over=["inputs"],
    forall="all token sequences",
    why="the tests read a handful of definitions; nesting, quotes and continued lines can come in any order",
    files=["libs/preprocessor/src/processor"],
    mech=[("call_read_args, define_read_args, define_read_body", "libs/preprocessor/src/processor/defines.rs"), ("directive_define, directive_undef", "libs/preprocessor/src/processor/directives.rs"), ("next_word, current_word", "libs/preprocessor/src/processor/mod.rs")],
    technique="language of token kinds and list operations of the MIR event graphs, compared with a specification automaton; nesting followed up to a fixed depth",
    note="Parentheses are followed three levels deep; the counter is only compared with constants. What a macro is replaced with is R02. A call whose last argument is empty has that argument left out, which is how M() has none; definitions end with the stream when it runs out.",
)

DEF = P + "processor::defines::" + PR
DIR = P + "processor::directives::" + PR
DEPTH = 3
LISTOP = ("push", "append", "extend", "insert", "pop", "remove", "clear", "truncate", "drain", "retain", "swap_remove", "split_off", "dedup", "reverse", "extend_from_slice", "push_back", "push_front")
GROW = ("append", "extend", "extend_from_slice")


class Lists(Setup):
    """what happens to the lists a function builds"""

    def truth(self, t, r, st):
        n = t.a[0].split("::")[-1] if t.op in ("call", "pure") else ""
        if n == "is_empty" and ("e", "arg") in st:
            return st["e", "arg"]
        rel = relation(t, True)
        if rel:
            for x, o, y in ((rel[0], rel[1], rel[2]), (rel[2], {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(rel[1], rel[1]), rel[0])):
                if x.op in ("call", "pure") and x.a[0].split("::")[-1] == "len" and y.op == "int" and ("e", "arg") in st:
                    if y.a[0] == 0 and o in (">", "!=", "==", "<="):
                        return st["e", "arg"] is (o in ("==", "<="))
                    if y.a[0] == 1 and o in (">=", "<"):
                        return st["e", "arg"] is (o == "<")
        if n in ("is_some_and", "is_none_or") and ("e", "esc") in st and "last" in self.q.c(t):
            return st["e", "esc"]
        return Setup.truth(self, t, r, st)

    def variant(self, t, r, st):
        if ("e", "esc") in st and r.token(t, st) is None:
            s = self.q.c(t)
            if re.search(r"\blast\(", s):
                if s.endswith("symbol"):
                    return "Escape" if st["e", "esc"] else "Word"
                if st["e", "esc"] and re.search(r"last\(.*\)$", s):
                    return "Some"
        return Setup.variant(self, t, r, st)

    def label(self, e, r, st):
        if e.kind != "call":
            return None
        n = e.name.split("::")[-1]
        if re.search(r"Processor>?::", e.name):
            if n == "define_use" and st.get("cur") == "end":
                return None
            return n
        if n in LISTOP and e.args and type(e.args[0]) is Term and re.search(r"Vec::|Deque::|Extend::|slice", e.name):
            vals = [a for a in e.args[1:] if type(a) is Term and a.op != "ty"]
            k = r.token(vals[0], st) if vals else None
            if n == "push" and k is not None:
                st["e", "arg"] = False
                if ("e", "esc") in st:
                    st["e", "esc"] = k[0] == "Escape"
                return "push" if k[1] == 1 else f"push again {k[0]}" if k[1] == 2 else f"push early {k[0]}"
            if n == "pop":
                st.pop(("e", "esc"), None) if ("e", "esc") in st and not st["e", "esc"] else None
                if st.get(("e", "esc")):
                    st["e", "esc"] = False  # what was before does not matter: a newline follows
                return "pop"
            if n == "push":
                st["e", "arg"] = True
                return "next" if vals and not re.search(r"::clone", vals[0].a[0] if vals[0].op in ("call", "pure") else "") else "copy"
            if n in GROW:
                st.pop(("e", "arg"), None)
                return "expanded" if any("define_use" in self.q.c(a) for a in vals) else n
            if n == "clear" and st.get(("e", "arg")) is True:
                return None
            return n
        return None


def look(q, groups, init=None, ints=None, **conf):
    s = Lists(q, conf)
    ks = classes(q, [v if isinstance(v, str) else v[0] for v in q.p.variants(SYM)], [g.split("|") for g in groups])
    r = Reader(q, s.stream, ks, s.label, s.truth, s.variant, ints=ints)
    r.init = dict(init or {})
    r.late = ("next", "copy")
    return r, ks


def nested(s, label):
    """words with parentheses up to a depth"""
    depth, quoted = s
    if label == "DoubleQuote":
        return depth, not quoted
    if quoted or label not in ("LeftParenthesis", "RightParenthesis"):
        return s
    depth += 1 if label == "LeftParenthesis" else -1
    return None if depth > DEPTH else (depth, False)


def returned(q, e, d=0):
    """the variants around the value returned, and the value"""
    t = Sizes(q).follow(e.res)
    out = []
    while t.op == "agg" and t.a[1] in ("Ok", "Some", "None") and d < 4:
        out.append(t.a[1])
        t = Sizes(q).follow(t.a[3][0]) if t.a[3] else t
        d += 1
        if out[-1] == "None":
            break
    return ".".join(out), t


def run(ctx):
    p = ctx.load(["hemtt_preprocessor", "hemtt_workspace", "hemtt_common"])
    SP = ("Whitespace", "Comment")
    ctx.rule("parameters: words separated by commas up to the parenthesis")
    q = thread(ctx.query(p.find(DEF + "define_read_args"), opaque=OPQ))
    r, ks = look(q, ["LeftParenthesis", "RightParenthesis", "Word", "Comma", "|".join(SP)])

    def params(s, k):
        if s == "(":
            return [(["take"], "A")] if k == "LeftParenthesis" else []
        if k == "end":
            return [([], "leave")]
        if k == "Word":
            return [(["take", "push"], "B")] if s == "A" else []
        if k == "Comma":
            return [(["take"], "A")] if s == "B" else []
        if k == "RightParenthesis":
            return [(["take"], "ok")]
        return [(["take"], s)] if k in SP else []
    same(ctx, "parameters", r, machine("(", params, ks), "the parameters are the words between the parentheses, in order", okret)

    ctx.rule("body: from behind the white space to the end of the line; a continued line goes on without the backslash")
    q = thread(ctx.query(p.find(DEF + "define_read_body"), opaque=OPQ))
    r, ks = look(q, ["Newline", "Escape", "Eoi"], init={("e", "esc"): False})

    def body(s, k):
        if s == "start":
            return [(["skip_whitespace@"], False)]
        if k == "end":
            return [([], "leave")]
        if k == "Newline":
            return [(["take", "pop", "push"], False)] if s else [(["take"], "ok")]
        if k == "Eoi":
            return [(["take"], s)]
        return [(["take", "push"], k == "Escape")]
    same(ctx, "body", r, machine("start", body, ks), "the body is the rest of the line, and of the lines it goes on in", lambda e: True)

    ctx.rule("arguments: split at commas outside of quotes, up to the matching parenthesis, with macros expanded")
    q0 = ctx.query(p.find(DEF + "call_read_args"), opaque=OPQ)
    for defined in (True, False):
        q = thread(q0)
        r, ks = look(q, ["LeftParenthesis", "RightParenthesis", "Word", "Comma", "DoubleQuote"], init={("e", "arg"): True}, ints=DEPTH + 3, defined=defined)

        def args(s, k):
            if s == "(":
                return [(["take"], (0, False, True))] if k == "LeftParenthesis" else []
            depth, quoted, empty = s
            close = [[]] if empty is True else [["next"]] if empty is False else [[], ["next"]]
            if k == "end":
                return [(c, "leave") for c in close]
            if quoted:
                return [(["take", "push"], (depth, k != "DoubleQuote", False))]
            if k == "Word" and defined:
                return [(["define_use@", "expanded"], (depth, False, None))]
            if k == "LeftParenthesis":
                return [(["take", "push"], (depth + 1, False, False))] if depth < DEPTH else []
            if k == "RightParenthesis":
                if depth == 0:
                    return [(["take"] + c, "ok") for c in close]
                return [(["take", "push"], (depth - 1, False, False))]
            if k == "Comma":
                return [(["take", "next"], (depth, False, True)), ]
            return [(["take", "push"], (depth, k == "DoubleQuote", False))]
        same(ctx, f"arguments.{defined}", r, machine("(", args, ks), f"the arguments of a call ({'with' if defined else 'without'} macros in them)", lambda e: okret(e) and returned(q, e)[0] == "Ok.Some", ((-1, False), nested))
        none = machine("s", lambda s, k: [] if k == "LeftParenthesis" else [([], "leave")], ks)
        same(ctx, f"arguments.none.{defined}", r, none, "there are no arguments without a parenthesis", lambda e: okret(e) and returned(q, e)[0] == "Ok.None")
        use = q.events(lambda e: e.kind == "call" and e.name.endswith("::define_use"))
        ctx.expect(f"arguments.site.{defined}", all(e.args[1].op == "param" for e in use), "macros in arguments are expanded for the same call site", where=q0.root.norm)

    ctx.rule("#define: kind and name of the definition; #undef removes the name")
    q = thread(ctx.query(p.find(DIR + "directive_define"), opaque=OPQ))
    definitions(ctx, q)
    q = thread(ctx.query(p.find(DIR + "directive_undef"), opaque=OPQ))
    und = lambda e, r, st: label_define(q, e, r, st)
    ks = classes(q, kinds(q), [])
    s = Setup(q, {})
    r = Reader(q, s.stream, ks, und, s.truth)
    same(ctx, "undef", r, machine("s", lambda s, k: [(["next_word@"], "w")] if s == "s" else [(["remove", "expect_nothing_to_newline@"], "ok")], ks), "the named macro is removed, and nothing else stands on the line", okret)

    ctx.rule("the word wanted is the next token")
    q = thread(ctx.query(p.find(P + "processor::Processor::current_word"), opaque=OPQ))
    s = Setup(q, {})
    ks = classes(q, kinds(q), [["Word"]])
    r = Reader(q, s.stream, ks, lambda e, r, st: None, s.truth)
    same(ctx, "current_word", r, machine("s", lambda s, k: [(["take"], "ok")] if k == "Word" else [], ks), "a word is taken, anything else is an error", okret)
    for e in q.events(lambda e: e.kind == "ret" and okret(e)):
        v, t = returned(q, e)
        ctx.expect("current_word.value", "next(" in q.c(t) or "[*]" in q.c(t), "the word taken is the one returned", where=e.where(), detail=q.c(t)[:120])
    q = thread(ctx.query(p.find(P + "processor::Processor::next_word"), opaque=OPQ))
    s = Setup(q, {})
    r = Reader(q, s.stream, (), s.label, s.truth)
    r.kinds = ("any",)
    same(ctx, "next_word", r, word(["skip_whitespace@any", "current_word@any", "left:any"]), "white space before the word is skipped", lambda e: True)


def kinds(q):
    return [v if isinstance(v, str) else v[0] for v in q.p.variants(SYM)]


def label_define(q, e, r, st):
    if e.kind != "call":
        return None
    n = e.name.split("::")[-1]
    if re.search(r"Processor>?::", e.name):
        return n
    if re.search(r"defines::Defines::(insert|remove)$", e.name):
        own = "next_word" in q.c(e.args[1]) or "current_word" in q.c(e.args[1])
        v = ""
        if n == "insert":
            S = Sizes(q)
            t = S.follow(e.args[2])
            for x in t.a[3] if t.op == "agg" else ():
                u = S.follow(x)
                if ("v", x.id) in st or ("v", u.id) in st:
                    v = st.get(("v", u.id)) or st["v", x.id]
                elif u.op == "agg" and "definition::Definition" in str(u.a[0]):
                    v = u.a[1]
        return f"{n}{' ' + str(v) if v else ''}" + ("" if own else " of another name")
    return None


def definitions(ctx, q):
    s = Setup(q, {})

    def truth(t, r, st):
        if t.op in ("call", "pure") and t.a[0].endswith("is_builtin"):
            return False
        return s.truth(t, r, st)
    ks = classes(q, kinds(q), [["LeftParenthesis"], ["Newline"], ["Eoi"]])
    r = Reader(q, s.stream, ks, lambda e, r, st: label_define(q, e, r, st), truth)

    def spec(s, k):
        if s == "s":
            return [(["next_word@"], "w")]
        if s == "w":
            if k == "end":
                return []
            if k == "LeftParenthesis":
                return [(["remove", "define_read_args@"], "b")]
            if k in ("Newline", "Eoi"):
                return [(["remove", "insert Unit"], "leave")]
            return [(["remove", "define_read_body@", "insert Value"], "ok")]
        return [(["define_read_body@", "insert Function"], "ok")]
    same(ctx, "define", r, machine("s", spec, ks), "the kind of a definition follows from what is behind its name", okret)
    for e in q.events(lambda e: e.kind == "call" and e.name.endswith("FunctionDefinition::new")):
        t = [q.c(a) for a in e.args]
        ctx.expect("define.function", any("define_read_args" in x and "define_read_body" not in x for x in t[1:2]) and "define_read_body" in t[2], "a function has its parameters and its body", where=e.where())
