"""Macros: definition, scoping and substitution."""
from rules import *
from lin import *
from coll import *
from logic import *
from C03 import rets

META = dict(
    title="Macro uses are replaced by the current definition",
    statement="A macro use is replaced by its current definition: #define replaces, #undef removes, built-in macros are always defined and #define of one is an error. In a macro call each parameter stands for the argument in the same position, only while that macro's body is expanded, and a call with a different number of arguments, a function macro without a call and a flag macro used as a value are errors. A macro body and the text put in its place are the definition's tokens, and an argument's text is not expanded a second time.",
    over=["inputs"],
    forall="all macro definitions, calls and nestings of calls",
    why="the fixtures use a handful of macros; scoping and substitution rules must hold for every combination of definitions and calls",
    files=["libs/preprocessor/src"],
    mech=[("Defines", "libs/preprocessor/src/defines.rs"), ("define_use", "libs/preprocessor/src/processor/defines.rs"), ("directive_define/undef", "libs/preprocessor/src/processor/directives.rs")],
    technique="case analysis of MIR event graphs per kind of definition, languages of scope operations, truth tables of the lookup functions",
    note="Case sensitivity and the tokenizer are out of scope here.",
)

P = "hemtt_preprocessor::"
PR = "<impl hemtt_preprocessor::processor::Processor>::"
OPQ = lambda k: bool(re.search(r"Processor>?::(walk|output|call_read_args|define_read_\w+|next_word|current_word|skip_\w+|expect_\w+)$|defines::Defines::|::code$|Pragma::|FunctionDefinition::|PaddedArg::|fmt::|RedefineMacro::", k))
GEN = ("__COUNTER__", "__COUNTER_RESET__", "__FILE__", "__FILE_NAME__", "__FILE_SHORT__", "__LINE__")
CONST = ("__ARMA__", "__ARMA3__")
OTHER = ("__EVAL", "__EXEC", "__DATE_ARR__", "__DATE_STR__", "__DATE_STR_ISO8601__", "__TIME__", "__TIME_UTC__", "__TIMESTAMP_UTC__", "__DAY__", "__MONTH__", "__YEAR__", "__GAME_VER__", "__GAME_VER_MAJ__", "__GAME_VER_MIN__", "__GAME_BUILD__", "__A3_DIAG__", "__A3_DEBUG__")
okret = lambda e: e.kind == "ret" and not (e.res.op == "agg" and e.res.a[1] == "Err")


def base(q, t):
    """which field of self the collection belongs to"""
    name, n = None, 0
    while n < 60:
        n += 1
        t = Sizes(q).follow(t)
        if t.op == "param":
            return name
        if t.op == "ref":
            return next((x[2] for x in reversed(t.a[0][2]) if x[0] == "f" and x[2] in ("stack", "global")), None)
        if t.op == "fld":
            name, t = t.a[1], t.a[0]
        elif t.op in ("out", "upd", "with", "cast"):
            t = t.a[0] if t.op != "cast" else t.a[1]
            if t.op in ("call", "pure") and t.a[1]:
                t = t.a[1][0]
        elif t.op in ("call", "pure") and t.a[1]:
            name, t = None, t.a[1][0]
        elif t.op == "phi":
            vs = [v for v in Sizes(q).edges(t).values() if v is not t]
            if not vs:
                return None
            t = vs[0]
        else:
            return None
    return None


def literal(key, name="arg2"):
    """the looked-up name is the literal key: comparisons with it have known values"""

    def mk(q):
        def k(t):
            e = equality(t)
            for x, y in ((e[0], e[1]), (e[1], e[0])) if e else ():
                m = re.fullmatch(r'"([^"]*)"', q.c(y))
                if m and re.fullmatch(name, q.c(x)):
                    return (m.group(1) == key) is e[2]
            if t.op in ("call", "pure") and t.a[0].split("::")[-1] in ("contains", "any"):
                s = q.c(t)
                if re.match(r"(contains|any)\(\[", s):
                    cut = s.index("]")
                    has = key in re.findall(r'"([^"]*)"', s[:cut])
                    if s.startswith("contains") and re.fullmatch(name, s[cut + 3:-1]):
                        return has
                    if s.startswith("any"):
                        r = [r for r in q.g.cbret.get(t, ())]
                        if r and all(equality(x) and equality(x)[2] for x in r):
                            return has
            return None

        return k

    return mk


def both_known(*fs):
    def mk(q):
        ks = [f(q) for f in fs]

        def k(t):
            for f in ks:
                v = f(t)
                if v is not None:
                    return v
            return None

        return k

    return mk


def facts_(**f):
    """stack: a scope is active; own: the name is the macro being expanded; top, glob: the name is
    in the innermost scope / global definitions"""

    def mk(q):
        def k(t):
            if t.op in ("call", "pure"):
                n = t.a[0].split("::")[-1]
                if n == "contains_key" and "HashMap" in t.a[0]:
                    return f.get("glob") if base(q, t.a[1][0]) == "global" else f.get("top") if base(q, t.a[1][0]) == "stack" else None
                if n == "is_empty" and base(q, t.a[1][0]) == "stack":
                    return None if f.get("stack") is None else not f["stack"]
                if n in ("is_some", "is_none") and t.a[1]:
                    x = t.a[1][0]
                    if x.op in ("call", "pure") and x.a[0].endswith("HashMap::get"):
                        v = f.get("glob") if base(q, x.a[1][0]) == "global" else f.get("top")
                        return None if v is None else v is (n == "is_some")
            e = equality(t)
            if e:
                for x, y in ((e[0], e[1]), (e[1], e[0])):
                    if base(q, x) == "stack" and q.c(y) == "arg2" and x.op == "fld" and x.a[1] == "0":
                        return None if f.get("own") is None else f["own"] is e[2]
            return None

        return k

    w = []
    yn = lambda b: ["Some"] if b else ["None"]
    top = r"(?:last\w*\((?:mut\()?arg1\.stack\)?\)|split_last\w*\((?:mut\()?arg1\.stack\)?\))"
    if f.get("stack") is not None:
        w.append((top, yn(f["stack"])))
    if f.get("top") is not None:
        w.append((r"get\(" + top + r"\?\.1, arg2\)", yn(f["top"])))
    if f.get("glob") is not None:
        w.append((r"get\(arg1\.global, arg2\)", yn(f["glob"])))
    return mk, w


def bools(q, known):
    T_ = Truth(q, known(q))
    return {T_.val(e.res) for e in rets(q)}


def names(ctx):
    p = ctx.p
    D = P + "defines::Defines::"
    ctx.rule("lookup: the innermost scope hides the global definitions; built-ins are always defined; #define and #undef act on the innermost scope")
    q0 = ctx.query(p.find(D + "contains_key"))
    for key in GEN + CONST:
        qq = settle(q0, [], literal(key))
        ctx.expect(f"defined.{key}", bools(qq, literal(key)) == {True}, f"{key} is always defined", where=D + "contains_key", detail=str(bools(qq, literal(key))))
    import itertools

    for st, own, top, glob in itertools.product((False, True), repeat=4):
        if not st and (own or top):
            continue
        mk, w = facts_(stack=st, own=own, top=top, glob=glob)
        kn = both_known(literal("SOME_NAME"), mk)
        qq = settle(q0, w, kn)
        want = False if own else (st and top) or glob
        got = bools(qq, kn)
        ctx.expect(f"defined.{int(st)}{int(own)}{int(top)}{int(glob)}", got == {want}, f"a name that is {'' if top else 'not '}in the innermost scope{' (which is its own body)' if own else ''} and {'' if glob else 'not '}defined globally counts as {'' if want else 'un'}defined", where=D + "contains_key", detail=str(got))
    q0 = ctx.query(p.find(D + "is_builtin"))
    for key in GEN + CONST + OTHER + ("MY_MACRO", ""):
        qq = settle(q0, [], literal(key, "arg1"))
        got = bools(qq, literal(key, "arg1"))
        ctx.expect(f"builtin.{key}", got == {key in GEN + CONST + OTHER}, f"{key} is {'' if key.startswith('__') else 'not '}a built-in", where=D + "is_builtin", detail=str(got))
    q0 = ctx.query(p.find(D + "get_readonly"))
    for st, top in ((False, False), (True, False), (True, True)):
        mk, w = facts_(stack=st, top=top, glob=True)
        qq = settle(q0, w, mk)
        src = set()
        for e in rets(qq):
            gets = reaches(qq.g, live(qq, e.res), lambda x: x.op in ("call", "pure") and x.a[0].endswith("HashMap::get"), 4000)
            src |= {base(qq, x.a[1][0]) for x in gets if q0.c(x.a[1][1]) == "arg2"} or {None}
        ctx.expect(f"get.{int(st)}{int(top)}", src == {"stack" if top else "global"}, "the innermost scope's definition is used, the global one when there is none", where=D + "get_readonly", detail=str(src))
    mk, w = facts_(stack=True, top=False, glob=False)
    qq = settle(q0, w, mk)
    ctx.expect("get.none", bool(rets(qq)) and all(Truth(qq).variants(e.res) == {"None"} for e in rets(qq)), "an undefined name has no definition", where=D + "get_readonly")
    for n in ("insert", "remove"):
        q0 = ctx.query(p.find(D + n))
        for st in (False, True):
            mk, w = facts_(stack=st)
            qq = settle(q0, w, mk)
            touched = [(e.name.split("::")[-1], base(qq, e.args[0]), [qq.c(a) for a in e.args[1:]]) for e in qq.events() if e.kind == "call" and re.search(r"HashMap::(insert|remove|remove_entry|clear|retain|drain|entry)$", e.name)]
            want = (n, "stack" if st else "global", ["arg2", "arg3"] if n == "insert" else ["arg2"])
            op = lambda e: e.kind == "call" and re.search(r"HashMap::(insert|remove)$", e.name) is not None
            ok = bool(touched) and all((a.replace("remove_entry", "remove"), b, c) == want for a, b, c in touched) and qq.path_avoiding(op, lambda e: e.kind == "ret") is None
            ctx.expect(f"{n}.{'scope' if st else 'global'}", ok, f"{n} acts on the {'innermost scope' if st else 'global definitions'}", where=D + n, detail=str(touched))
    q = ctx.query(p.find(D + "push"))
    ev = [e for e in q.calls(r"Vec::(push|insert|pop|clear|truncate)$")]
    ctx.expect("push", len(ev) == 1 and base(q, ev[0].args[0]) == "stack" and q.c(ev[0].args[1]) == "(arg2, arg3)", "a scope is pushed with its name and definitions", where=D + "push")
    q = ctx.query(p.find(D + "pop"))
    ev = [e for e in q.calls(r"Vec::(push|insert|pop|clear|truncate|remove|drain)$")]
    ctx.expect("pop", len(ev) == 1 and ev[0].name.endswith("::pop") and base(q, ev[0].args[0]) == "stack" and q.path_avoiding(lambda e: e is ev[0], lambda e: e.kind == "ret") is None, "pop removes the innermost scope", where=D + "pop")


def live(q, t):
    return Sizes(q).follow(t)


def constants(ctx):
    """get_with_gen on built-in constants"""
    p = ctx.p
    f = p.find(P + "defines::Defines::get_with_gen")
    q0 = ctx.query(f, opaque=lambda k: OPQ(k) or k.endswith(("::mainprefix", "::prefix", "::filename")))
    N = r"to_string\(arg2\)|arg2(\.symbol)?"
    for key in GEN + CONST:
        for site in ("Some", "None") if key in CONST else ("Some",):
            kn = literal(key, N)
            hit = r"find\(\[.*" + (f'"{key}"' if key in CONST else "__ARMA__") + ".*"
            qq = settle(q0, [(r"arg3", [site]), (hit, ["Some" if key in CONST else "None"])], kn)
            bad = [e for e in rets(qq) if Truth(qq).variants(e.res) != {"Some"}]
            user = any(e.kind == "call" and e.name.endswith(("get_readonly", "HashMap::get")) for e in qq.events())
            ctx.expect(f"generated.{key}", bool(rets(qq)) and not bad and not user, f"{key} has its own definition wherever it is used", where=f.norm)


def use(ctx):
    p = ctx.p
    f = p.find(P + "processor::defines::" + PR + "define_use")
    q0 = ctx.query(f, opaque=OPQ)
    out = [i + 1 for i in range(f.argc) if "Vec<" in str(f.locals[i + 1][0]) and "Output" in str(f.locals[i + 1][0])]
    ctx.expect("use.buffer", len(out) == 1, "the output buffer is a parameter", where=f.norm)
    B = f"arg{out[0]}"
    G = r"get_with_gen\(.*\)\?"

    def lab(q):
        def lb(e):
            if e.kind != "call":
                return None
            if e.name.endswith("Processor::walk"):
                return "walk"
            if e.name.endswith("Defines::push"):
                return "scope+"
            if e.name.endswith("Defines::pop"):
                return "scope-"
            m = re.search(r"Vec::(push|extend\w*|append|insert|pop|clear|truncate|remove|drain)$", e.name)
            if m and re.match(rf"(mut\()?{B}\b", q.c(obj(e.args[0], q.g))):
                if m.group(1) != "push":
                    return "buffer." + m.group(1)
                v = live(q, e.args[1])
                return v.a[1].lower() if v.op == "agg" and v.a[1] else "buffer.?"
            return None

        return lb

    def words(q):
        tr, fin = q.nfa(lab(q), lambda e: okret(e)).dfa()
        got, todo = set(), [(0, ())]
        while todo and len(got) < 40:
            s, w = todo.pop()
            if s < len(fin) and fin[s]:
                got.add(w)
            if len(w) < 7 and s < len(tr):
                todo += [(m, w + (l,)) for l, m in tr[s].items()]
        return got

    def case(kind, **more):
        return settle(q0, [(r"next\(arg4\)|peek\(arg4\)", ["Some"]), (r"get_with_gen\(.*Option::Some\(arg2\)\)", ["Some"]), (G + r"\.1", [kind])] + more.get("want", []), more.get("known"))

    ctx.rule("define_use: per kind of definition exactly the scope operations, expansion and output of the table, on every successful path")
    T_ = lambda n, q, want, msg: ctx.expect(n, bool(words(q)) and words(q) <= want, f"{msg} ({sorted(words(q))[:3]})", where=f.norm)
    fq = case("Function")
    T_("use.function", fq, {("scope+", "walk", "scope-", "macro"), ("scope+", "walk", "macro", "scope-")}, "a call expands the body in a scope of its own and leaves the scope again")
    arg = lambda v: lambda q: lambda t: (v is equality(t)[2]) if equality(t) and any(re.fullmatch(G + r"\.2", q.c(x)) for x in equality(t)[:2]) and any("Argument" in q.c(x) for x in equality(t)[:2]) else None
    vq = case("Value", known=arg(False), want=[(G + r"\.2", ["Source", "Generated"])])
    T_("use.value", vq, {("walk", "macro")}, "a value macro's body is expanded in its place")
    aq = case("Value", known=arg(True), want=[(G + r"\.2", ["Argument"])])
    T_("use.argument", aq, {("macro",)}, "an argument is put in place without a second expansion")
    T_("use.void", case("Void"), {()}, "a macro without text leaves nothing")
    uq = case("Unit")
    ctx.expect("use.unit", not words(uq) and bool(rets(uq)), "a flag macro used as a value is an error", where=f.norm)
    nq = settle(q0, [(r"get_with_gen\(.*Option::Some\(arg2\)\)", ["None"]), (r"next\(arg4\)|peek\(arg4\)", ["Some"])])
    T_("use.undefined", nq, {("direct",)}, "a name without a definition is kept as it is")
    for e in nq.events():
        if lab(nq)(e) == "direct":
            ctx.expect("use.undefined.token", q0.c(live(nq, e.args[1])) == "Output::Direct(arg4[*])", "the token itself is kept", where=e.where())

    ctx.rule("a call binds each parameter to the argument in its position and is expanded only when the counts agree")
    cq = settle(fq, [(r"call_read_args\(.*\)\?", ["None"])])
    ctx.expect("call.paren", not words(cq), "a function macro that is not called is an error", where=f.norm)
    isargs = lambda s: re.fullmatch(r"len\(call_read_args\(.*\)\?\?\)", s) is not None
    ispars = lambda s: re.fullmatch(r"len\(args\(" + G + r"\.1\.0@Function\)\)", s) is not None

    def same(e):
        if e.kind != "br" or e.raw != "bool" or not isinstance(e.args[0], Term):
            return False
        r = relation(e.args[0], str(e.args[1]) == "True")
        if not r or r[1] not in ("==", "eq"):
            return False
        a, b = q0.c(r[0]), q0.c(r[2])
        return isargs(a) and ispars(b) or isargs(b) and ispars(a)

    enter = lambda e: e.kind == "call" and e.name.endswith("Defines::push")
    tr = fq.path_avoiding(same, enter)
    ctx.expect("call.count", tr is None and any(enter(e) for e in fq.events()), "a call with a different number of arguments is an error", tr or (), f.norm)

    def pair(x):
        """(iterator, component) of a component of a zipped element"""
        x = live(fq, x)
        if x.op == "fld" and x.a[1] in ("0", "1"):
            b = live(fq, x.a[0])
            if b.op == "fld" and b.a[2] == "Some":
                b = live(fq, b.a[0])
            if b.op == "call" and NEXT.search(b.a[0]):
                return Canon(fq).elem(b.a[1][0]), x.a[1]
            if b.op in ("elem", "cbarg"):
                return Canon(fq).elem(b.a[0]) if b.op == "elem" and isinstance(b.a[0], Term) else fq.c(b), x.a[1]
        return None

    def paired(k, v):
        """components of the same step of an iteration over (parameters, arguments)"""
        s = re.sub(r"\[\*\]", "", k[0])
        return k[0] == v[0] and (k[1], v[1]) == ("0", "1") and re.fullmatch(r"zip\(" + ARGS + r", (?:into_iter\()?call_read_args\(.*\)\?\?\)?\)", s) is not None

    def binding(key, tup):
        """the (parameter, argument) pair bound"""
        k, t = live(fq, key), live(fq, tup)
        if t.op != "agg" or len(t.a[3]) != 3:
            return None
        par, d, src = [live(fq, x) for x in t.a[3]]
        if not (d.op == "agg" and d.a[1] == "Value" and src.op == "agg" and src.a[1] == "Argument"):
            return None
        if not re.fullmatch(ARGS + r"\[\*\]", unclone(par)) or not re.fullmatch(r"call_read_args\(.*\)\?\?\[\*\]", unclone(d.a[3][0])):
            return None
        return [{pair(x) for x in reaches(fq.g, y, lambda x: pair(x) is not None, 500)} for y in (k, par, d.a[3][0])]

    unclone = lambda t: re.sub(r"^(?:clone|to_vec|to_owned)\((.*)\)$", r"\1", fq.c(t))
    ARGS = r"args\(" + G + r"\.1\.0@Function\)"

    ins = [e for e in fq.calls(r"HashMap::insert$") if len(e.args) == 3 and (live(fq, e.args[2]).op == "agg") and any(x.op == "agg" and x.a[1] == "Argument" for x in live(fq, e.args[2]).a[3])]
    enters = [e for e in fq.events(enter)]
    for e in enters:
        m = obj(e.args[2], fq.g)
        bs = [binding(i.args[1], i.args[2]) for i in ins if obj(i.args[0], fq.g) == m]
        c = live(fq, e.args[2])
        if c.op in ("call", "pure") and c.a[0].endswith("::collect"):
            mp = live(fq, c.a[1][0])
            for r in fq.g.cbret.get(mp, ()):
                r = live(fq, r)
                if r.op == "agg" and len(r.a[3]) == 2:
                    bs.append(binding(*r.a[3]))
        ok = bool(bs) and all(b and all(len(x) == 1 for x in b) and b[0] == b[1] and paired(*b[1], *b[2]) for b in bs)
        ctx.expect("call.bind", ok, "the scope maps each parameter's name to the argument in its position", where=e.where(), detail=str(bs)[:400])
        own = to_text(q0, e.args[1])
        ctx.expect("call.scope", own == "arg4[*]", "the scope carries the macro's name", where=e.where(), detail=own)
    if ins:
        put = lambda e: any(e is i for i in ins)
        r, why = every_iteration(fq, put, lambda el: "zip(" in el, enter)
        ctx.expect("call.every", bool(r), "every parameter is bound", where=f.norm, detail=str(why)[:200])

    ctx.rule("the body expanded is the definition's, in a scope named by the macro, and the result is put in the place of the use")
    for nm, q, body in (("function", fq, r"stream\(" + G + r"\.1\.0@Function\)"), ("value", vq, None)):
        for e in q.calls(r"Processor::walk$"):
            st = q.c(e.args[4])
            if body:
                ctx.expect(f"walk.{nm}.body", re.fullmatch(body, st) is not None, "the body expanded is the definition's", where=e.where(), detail=st[:120])
            else:
                t = live(q, e.args[4])
                while t.op in ("call", "pure") and t.a[0].split("::")[-1] in ("peekmore", "into_iter", "iter", "peekable"):
                    t = live(q, t.a[1][0])
                cls = lambda b: None if not (b.kind == "br" and isinstance(b.args[1], str) and re.fullmatch(G + r"\.1\.0@Value\[\*\](\.symbol)?", q.c(b.args[0]))) else False if b.args[1] == "Join" else True if "Join" not in b.args[1].split("|") else None
                el = [x for _, _, x, _ in loop_heads(q)]
                els = {x for x in el if re.fullmatch(G + r"\.1\.0@Value\[\*\]", x)}
                ok = any(selects(q, t, x, cls) for x in els) or re.fullmatch(G + r"\.1\.0@Value", q.c(t)) is not None
                ctx.expect("walk.value.body", ok, "the body expanded is the definition's without the joins", where=e.where(), detail=q.c(t)[:200])
            ctx.expect(f"walk.{nm}.self", re.fullmatch(r"Option::Some\(to_string\(arg4\[\*\]\)\)", q.c(e.args[2])) is not None, "inside its own body a macro's name is not expanded", where=e.where(), detail=q.c(e.args[2])[:120])
            ctx.expect(f"walk.{nm}.site", q.c(e.args[1]) == "Option::Some(arg2)", "positions inside the body refer to the place of the use", where=e.where(), detail=q.c(e.args[1])[:120])
            layer = obj(e.args[5], q.g)
            for x in q.events():
                if lab(q)(x) == "macro":
                    v = live(q, x.args[1])
                    ctx.expect(f"walk.{nm}.result", obj(v.a[3][1], q.g) == layer and strip_c(q, v.a[3][0]) == "arg4[*]", "the expansion of the body is what replaces the use", where=x.where(), detail=q.c(v)[:160])
    for x in aq.events():
        if lab(aq)(x) == "macro":
            s = aq.c(live(aq, x.args[1]))
            ctx.expect("argument.result", re.fullmatch(r"Output::Macro\(arg4\[\*\], list\[(map\(" + G + r"\.1\.0@Value, fn:Output::Direct\)\[\*\]|Output::Direct\(" + G + r"\.1\.0@Value\[\*\]\))\]\)", s) is not None, "an argument's tokens replace the parameter", where=x.where(), detail=s[:200])


def strip_c(q, t):
    return re.sub(r"^clone\((.*)\)$", r"\1", q.c(t))


def to_text(q, t):
    s = q.c(t)
    m = re.fullmatch(r"(?:to_string|as_str|deref|from|into)\((.*)\)", s)
    return re.sub(r"\.symbol$", "", m.group(1) if m else s)


def define(ctx):
    p = ctx.p
    ctx.rule("#define of a built-in is an error with nothing changed; otherwise exactly one definition is stored under the name given, of the kind the text after it says; #undef removes it")
    f = p.find(P + "processor::directives::" + PR + "directive_define")
    q0 = ctx.query(f, opaque=OPQ)
    dfn = lambda e: e.kind == "call" and re.search(r"defines::Defines::(insert|remove|push|pop)$", e.name) is not None
    isb = lambda v: lambda q: lambda t: v if t.op in ("call", "pure") and t.a[0].endswith("Defines::is_builtin") else None
    qb = settle(q0, [], isb(True))
    bad = next((e for e in qb.events() if dfn(e) or okret(e)), None)
    ctx.expect("define.builtin", bad is None and any(e.kind == "ret" for e in qb.events()), "#define of a built-in is an error", where=bad.where() if bad else f.norm)
    for e in q0.calls(r"Defines::is_builtin$"):
        ctx.expect("define.builtin.name", "next_word(" in q0.c(e.args[0]) and to_text(q0, e.args[0]).startswith("next_word("), "the name tested is the one defined", where=e.where())
    ins = lambda e: e.kind == "call" and e.name.endswith("Defines::insert")
    SYM = r"peek\(.*\)\?\.symbol"
    for nm, v in (("Function", "LeftParenthesis"), ("Unit", "Newline"), ("Unit", "Eoi"), ("Value", "Whitespace"), ("Value", "DoubleQuote"), ("Value", "Digit")):
        q = settle(q0, [(SYM, [v])], isb(False))
        tr = q.path_avoiding(ins, okret)
        ctx.expect(f"define.{v}", tr is None and any(ins(e) for e in q.events()) and q.path_avoiding(lambda e: False, ins, start=ins) is None, "#define stores the definition once", tr or (), f.norm)
        tr = q.path_avoiding(lambda e: False, lambda e: e.kind == "call" and e.name.endswith("Defines::remove"), start=ins)
        ctx.expect(f"define.{v}.kept", tr is None, "the new definition is kept", tr or (), f.norm)
        for e in q.events(ins):
            name, val = to_text(q, e.args[1]), live(q, e.args[2])
            ok = name.startswith("next_word(") and val.op == "agg" and len(val.a[3]) == 3
            par = [live(q, x) for x in val.a[3]] if ok else []
            ok = ok and q.c(par[0]) == name and par[1].op == "agg" and par[1].a[1] == nm and par[2].op == "agg" and par[2].a[1] == "Source"
            ctx.expect(f"define.{v}.value", ok, f"the name is bound to a {nm.lower()} definition", where=e.where(), detail=q.c(val)[:200])
            if not ok:
                continue
            if nm == "Value":
                s = q.c(par[1].a[3][0])
                ctx.expect(f"define.{v}.body", re.fullmatch(r"define_read_body\(.*\)", s) is not None, "the body is the rest of the line", where=e.where(), detail=s[:120])
            if nm == "Function":
                s = q.c(par[1].a[3][0])
                ctx.expect("define.params", re.fullmatch(r"(?:FunctionDefinition::)?new\(.*, define_read_args\(.*\)\?, define_read_body\(.*\)\)", s) is not None, "parameters and body are those read", where=e.where(), detail=s[:300])
    f = p.find(P + "processor::directives::" + PR + "directive_undef")
    q = ctx.query(f, opaque=OPQ)
    rm = lambda e: e.kind == "call" and e.name.endswith("Defines::remove")
    tr = q.path_avoiding(rm, okret)
    ctx.expect("undef", tr is None and any(okret(e) for e in q.events()), "#undef removes the definition", tr or (), f.norm)
    for e in q.events(rm):
        ctx.expect("undef.name", to_text(q, e.args[1]).startswith("next_word("), "of the name given", where=e.where(), detail=q.c(e.args[1])[:120])


def run(ctx):
    ctx.load(["hemtt_preprocessor", "hemtt_workspace", "hemtt_common"])
    names(ctx)
    constants(ctx)
    use(ctx)
    define(ctx)
