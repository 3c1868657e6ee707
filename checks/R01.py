"""Untaken branches of preprocessor conditionals have no effect."""
from rules import *
from lin import *
from coll import *
from logic import *
from effects import Effects
from C03 import cases, rets

META = dict(
    title="Untaken conditional branches have no effect",
    statement="A source line is processed only when every enclosing #if/#ifdef/#ifndef/#else branch is taken: in an untaken branch no include, define, undef, pragma, macro expansion or output happens and no error is raised, while nested conditionals are still matched up. #ifdef and #ifndef are taken exactly when the macro is (not) defined, #if compares as strings for == and != and as numbers for <, <=, >, >= and is an error otherwise, #else takes the branch if and only if the conditional's first branch was not taken. A second #else for one conditional and a conditional left open at the end of input are errors.",
    over=["inputs"],
    forall="all source files, any nesting of conditionals, inside macro bodies included",
    why="the fixtures nest conditionals a few ways; a state lost on one of the transitions shows only for particular nestings",
    files=["libs/preprocessor/src"],
    mech=[("IfStates", "libs/preprocessor/src/ifstate.rs"), ("directive dispatch", "libs/preprocessor/src/processor/directives.rs"), ("line/walk/output", "libs/preprocessor/src/processor/mod.rs")],
    technique="effect analysis over the call graph and per-directive, per-state case analysis of MIR event graphs; transition-table check of the conditional stack",
    note="Each directive is examined once per reading state; effects are everything reachable in the call graph.",
)

P = "hemtt_preprocessor::"
PROC = re.compile(r"hemtt_preprocessor::.*Processor>?::(directive_\w+|directive|read_pragma|walk|line|file|output|define_use|skip_\w+|expect_\w+|next_word|current_word|call_read_args|define_read_\w+)$")
IFS = re.compile(r"ifstate::IfStates::(\w+)$")
OPQ = lambda k: bool(PROC.search(k) or IFS.search(k) or re.search(r"defines::Defines::|::code$|::pragma::Pragma::|parse::parse$|::locate$|fmt::", k))
WORDS = ("include", "define", "undef", "if", "ifdef", "ifndef", "else", "endif", "pragma")


def prim(n, t, b):
    m = re.search(r"hemtt_preprocessor::defines::Defines::(insert|remove|push|pop|get_with_gen)$", n)
    if m:
        return {{"insert": "define", "remove": "undef", "get_with_gen": "expand"}.get(m.group(1), "scope")}
    if re.search(r"hemtt_preprocessor::defines::Defines::", n):
        return set()
    m = IFS.search(n)
    if m:
        return {"cond." + m.group(1)} if m.group(1) != "reading" else set()
    if re.search(r"hemtt_preprocessor::processor::Processor::output$", n):
        return {"guarded-output"}
    if re.search(r"pragma::Pragma::(suppress|flag)$", n):
        return {"pragma"}
    if re.search(r"hemtt_preprocessor::parse::parse$", n):
        return {"include"}
    if t is not None and re.search(r"Vec::(push|extend\w*|append|insert)$", n) and "reporting::output::Output" in " ".join(map(str, t[1].get("a", ()))):
        return {"output"}
    return None


def store(ty, path):
    return f"write {path[-1]}" if "hemtt_preprocessor::processor::Processor" in ty and path else None


def reads_state(e):
    """the branch asks whether lines are being read"""
    t = e.args[0] if e.kind == "br" else None
    return type(t) is Term and t.op in ("call", "pure") and t.a[0].endswith("IfStates::reading")


def on_read(v):
    return lambda e: reads_state(e) and str(e.args[1]) == str(v)


def scenario(word, reading):
    """what is known when the directive's name is `word` and the reading state is given"""

    def known(q):
        def k(t):
            if t.op in ("call", "pure") and t.a[0].endswith("IfStates::reading"):
                return reading
            if word is None:
                return None
            e = equality(t)
            if e:
                for x, y in ((e[0], e[1]), (e[1], e[0])):
                    m = re.fullmatch(r'"([^"]*)"', q.c(y))
                    if m and re.search(r"symbol", q.c(x)) and "next_word" not in q.c(x):
                        return (m.group(1) == word) is e[2]
            if t.op in ("call", "pure") and t.a[0].endswith("::contains"):
                m = re.fullmatch(r"contains\(\[(.*?)\], (.*)\)", q.c(t))
                if m and "symbol" in m.group(2) and '"' in m.group(1) and "next_word" not in m.group(2):
                    return f'"{word}"' in m.group(1).split(", ")
            return None

        return k

    return known


def run(ctx):
    p = ctx.load(["hemtt_preprocessor", "hemtt_workspace", "hemtt_common"])
    E = Effects(p, prim, store)
    eff = lambda e: E.call(e) if e.kind == "call" else set()

    ctx.rule("in an untaken branch every directive only touches the stack of conditionals; in a taken one each directive has its effect on every path that succeeds")
    D = p.find(P + "processor::directives::<impl hemtt_preprocessor::processor::Processor>::directive_command")
    q0 = ctx.query(D, opaque=OPQ)
    okret = lambda e: e.kind == "ret" and not (e.res.op == "agg" and e.res.a[1] == "Err")
    errret = lambda e: e.kind == "ret" and e.res.op == "agg" and e.res.a[1] == "Err"

    def restr(word, reading):
        return settle(q0, known=scenario(word, reading))

    # what each directive must do and may do: (reading) -> (required effect, allowed effects)
    silent = {"guarded-output"}
    for w in WORDS + ("unheard-of",):
        q = restr(w, False)
        allowed = set(silent)
        must = None
        if w in ("if", "ifdef", "ifndef"):
            allowed |= {"cond.push"}
            must = "cond.push"
        elif w == "else":
            allowed |= {"cond.flip"}
            must = "cond.flip"
        elif w == "endif":
            allowed |= {"cond.pop"}
            must = "cond.pop"
        for e in q.events():
            x = eff(e) - allowed
            if x:
                ctx.bad(f"untaken.{w}", f"#{w} in an untaken branch has an effect: {', '.join(sorted(x))}", where=e.where())
        if must:
            tr = q.path_avoiding(lambda e: must in eff(e), okret)
            ctx.expect(f"untaken.{w}.tracked", tr is None and any(okret(e) for e in q.events()), f"#{w} in an untaken branch is still matched up ({must})", tr or (), D.norm)
            twice = q.path_avoiding(lambda e: False, lambda e: must in eff(e), start=lambda e: must in eff(e))
            ctx.expect(f"untaken.{w}.once", twice is None, "and only once", twice or (), D.norm)
        if w in ("if", "ifdef", "ifndef"):
            for e in q.calls(r"IfStates::push$"):
                a = q.c(e.args[1])
                ctx.expect(f"untaken.{w}.child", a.startswith("IfState::PassingChild("), "a conditional inside an untaken branch is untaken whatever it says", where=e.where(), detail=a)
        else:
            ctx.ok(f"untaken.{w}", "only conditionals are tracked")
        if w not in ("else", "endif"):
            bad = next((e for e in q.events(errret)), None)
            ctx.expect(f"untaken.{w}.quiet", bad is None, f"#{w} in an untaken branch is never an error", where=D.norm)
    for w, need in (("include", "include"), ("define", "define"), ("undef", "undef"), ("if", "cond.push_if"), ("ifdef", "cond.push_if"), ("ifndef", "cond.push_if"), ("else", "cond.flip"), ("endif", "cond.pop"), ("pragma", None)):
        q = restr(w, True)
        if need:
            tr = q.path_avoiding(lambda e: need in eff(e), okret)
            ctx.expect(f"taken.{w}", tr is None and any(okret(e) for e in q.events()), f"#{w} takes effect", tr or (), D.norm)
        cond = {"cond.push_if", "cond.flip", "cond.pop", "cond.push"} - {need}
        for e in q.events():
            x = eff(e)
            if w != "include" and x & cond:
                ctx.bad(f"taken.{w}.stack", f"#{w} disturbs the stack of conditionals ({', '.join(sorted(x & cond))})", where=e.where())
        if w in ("ifdef", "ifndef"):
            for e in q.calls(r"directive_ifdef$"):
                got = [Truth(q, scenario(w, True)(q)).val(e.args[2])]
                ctx.expect(f"taken.{w}.sense", got == [w == "ifdef"], f"#{w} looks for the macro being {'' if w == 'ifdef' else 'un'}defined", where=e.where(), detail=str(got))
    q = restr("unheard-of", True)
    bad = next((e for e in q.events(okret)), None)
    ctx.expect("taken.unknown", bad is None and any(errret(e) for e in q.events()), "an unknown directive is an error", where=D.norm)

    ctx.rule("lines, macro uses and output are skipped unless all enclosing branches are taken")
    for name, allowed in (("line", {"guarded-output", "cond.push", "cond.push_if", "cond.pop", "cond.flip"}), ("output", set())):
        f = p.find(P + "processor::Processor::" + name)
        q = ctx.query(f, opaque=OPQ)
        q = settle(q, known=scenario(None, False))
        bad = False
        for e in q.events():
            if e.kind == "call" and PROC.search(e.name) and e.name.endswith(("::directive", "::directive_command")):
                continue  # decided above
            x = eff(e) - allowed
            if name == "output" and e.kind == "call" and re.search(r"Vec::(push|pop|extend\w*|append|insert|clear|truncate)$", e.name):
                x = {"output"}
            if x:
                bad = True
                ctx.bad(f"{name}.untaken", f"an untaken line has an effect: {', '.join(sorted(x))}", where=e.where())
        if not bad:
            ctx.ok(f"{name}.untaken", "no effect")
    f = p.find(P + "processor::Processor::line")
    q = ctx.query(f, opaque=OPQ)
    isread = on_read(True)
    tr = q.path_avoiding(isread, lambda e: e.kind == "call" and e.name.endswith("Processor::walk"))
    ctx.expect("line.guard", tr is None, "a line is expanded only in a taken branch", tr or (), f.norm)
    # the macro walker: a directive inside a macro body may end the taken part
    f = p.find(P + "processor::Processor::walk")
    q = ctx.query(f, opaque=OPQ)
    directive = lambda e: e.kind == "call" and PROC.search(e.name) is not None and re.search(r"::directive\w*$", e.name) is not None
    use = lambda e: e.kind == "call" and "expand" in eff(e) and not directive(e)
    rd = on_read(True)
    tr = q.path_avoiding(rd, use, start=directive)
    ctx.expect("walk.guard", tr is None, "after a conditional inside a macro body, macros are expanded only in taken branches", tr or (), f.norm)
    coded = lambda e: e.kind == "call" and e.name.endswith("::code")
    tr = q.path_avoiding(rd, coded, start=directive)
    ctx.expect("walk.quiet", tr is None, "after a conditional inside a macro body, errors are raised only in taken branches", tr or (), f.norm)
    for e in q.events():
        if e.kind == "call" and not PROC.search(e.name) and "output" in eff(e):
            ctx.bad("walk.output", "output is produced without looking at the conditionals", where=e.where())
    buf = {i + 1 for i in range(f.argc) if "Output" in str(f.locals[i + 1][0])}
    adds = lambda e: e.kind == "call" and re.search(r"Vec::(push|extend\w*|append|insert)$", e.name) is not None and re.match(r"(mut\()?arg(\d+)", q.c(obj(e.args[0], q.g))) is not None and int(re.match(r"(?:mut\()?arg(\d+)", q.c(obj(e.args[0], q.g))).group(1)) in buf
    tr = q.path_avoiding(rd, adds, start=directive)
    ctx.expect("walk.direct", tr is None and bool(buf), "after a conditional inside a macro body, output is produced only in taken branches", tr or (), f.norm)

    ctx.rule("the conditional stack: reading() is the conjunction over the stack; each transition has exactly the effect of the table")
    stack(ctx)
    compare_ops(ctx)
    # a conditional left open
    f = p.find(P + "processor::Processor::run")
    q = ctx.query(f, opaque=lambda k: OPQ(k) or k.endswith(("Processed::new", "WorkspacePath::filename")))
    done = lambda e: e.kind == "call" and e.name.endswith("Processed::new")
    closed = lambda e: e.kind == "br" and re.search(r"pop\(.*ifstates\)", q.c(e.args[0])) is not None and str(e.args[1]) == "None"
    tr = q.path_avoiding(closed, done)
    ctx.expect("run.closed", tr is None and any(done(e) for e in q.events()), "a conditional left open at the end of input is an error", tr or (), f.norm)


READ = ("ReadingIf", "ReadingElse")
PASS_ = ("PassingIf", "PassingElse", "PassingChild")


def stack(ctx):
    p = ctx.p
    f = p.find(P + "ifstate::IfStates::reading")
    q = ctx.query(f)
    el = "arg1.stack[*]"
    cls = lambda e: set(e.args[1].split("|")) <= set(READ) if e.kind == "br" and isinstance(e.args[1], str) and q.c(e.args[0]).replace("rev:", "") == el and not (set(e.args[1].split("|")) & set(READ) and set(e.args[1].split("|")) & set(PASS_)) else None
    rs = rets(q)
    ctx.expect("reading.all", forall_result(q, el, cls), "lines are read exactly when every entry of the stack is ReadingIf or ReadingElse", where=f.norm, detail=str([q.c(e.res)[:200] for e in rs]))

    # push and pop keep a mark of the #else beside every entry
    st = lambda e: e.kind == "call" and re.search(r"Vec::(push|pop|insert|remove|clear|truncate|drain|swap_remove)$", e.name) is not None
    for n in ("push", "pop", "push_if"):
        f = p.find(P + "ifstate::IfStates::" + n)
        q = ctx.query(f)
        got = language(q)
        if n == "push":
            want = {("push arg2",)}
        elif n == "pop":
            want = {("pop",)}
            for e in rets(q):
                ctx.expect("pop.result", re.search(r"pop\(arg1\.stack\)", q.c(e.res)) is not None, "pop returns the entry removed", where=f.norm)
        else:
            want = None
            for v, k in (("True", "ReadingIf"), ("False", "PassingIf")):
                qq = settle(q, known=lambda q, v=v: lambda t: (v == "True") if t.op == "param" and q.c(t) == "arg3" else None)
                ctx.expect(f"push_if.{v}", language(qq) == {(f"push IfState::{k}(arg2)",)}, f"a conditional that is {'' if v == 'True' else 'not '}met becomes {k} ({language(qq)})", where=f.norm)
        if want is not None:
            ctx.expect(n + ".stack", got == want, f"{n} changes exactly the innermost entry ({got})", where=f.norm)
        marks = language(q, "did_else")
        ctx.expect(n + ".mark", marks == {("pop",) if n == "pop" else ("push Option::None",)}, f"{n} keeps the #else marks in step ({marks})", where=f.norm)

    f = p.find(P + "ifstate::IfStates::flip")
    q = ctx.query(f, opaque=lambda k: k.endswith("::code"))
    table = {"PassingIf": "ReadingElse", "ReadingIf": "PassingElse", "PassingChild": "PassingChild"}
    last = r"(?:pop|last|last_mut|split_last|split_last_mut)\((?:mut\()?arg1\.stack\)?\)\?(?:\.0)?|arg1\.stack\[-1\]|arg1\.stack\[\*\]"
    par = r"(?:take|split_last\w*|split_at\w*|skip|rev)\(.*arg1\.stack.*\[\*\]|arg1\.stack\[.*\]\[\*\]"
    notyet = [(r"last\w*\(arg1\.did_else\)\?", ["None"])]
    for v, w in table.items():
        qq = settle(q, [(last, [v]), (par, list(READ))] + notyet)
        okl = language(qq, ok=True, nonempty=True)
        same = {(), ("pop", f"push {v}"), (f"set {v}",)}
        want = {("pop", f"push {w}"), (f"set {w}",)}
        if v == w:
            want |= same
        got = {tuple(re.sub(r"IfState::(\w+)\(.*", r"\1", x) for x in wd) for wd in okl}
        ctx.expect(f"flip.{v}", bool(got) and got <= want, f"#else turns {v} into {w} ({sorted(got)})", where=f.norm)
        ctx.expect(f"flip.{v}.mark", marked(qq), "#else marks its conditional", where=f.norm)
    seen = cases(q, [(r"last\w*\(arg1\.did_else\)", ["Some"]), (r"last\w*\(arg1\.did_else\)\?", ["Some"]), (r"(?:split_)?last\w*\(arg1\.stack\)", ["Some"])])
    oks = [e for e in rets(seen) if not (e.res.op == "agg" and e.res.a[1] == "Err")]
    ctx.expect("flip.twice", not oks and bool(rets(seen)), "a second #else is an error", where=f.norm)


def language(q, name="stack", ok=False, nonempty=False):
    """the sequences of changes to a stack, per path (loop-free)"""
    of = lambda t: re.search(r"arg1\.(\w+)", q.c(t))

    def lab(e):
        if e.kind == "call" and e.args:
            m = re.search(r"(?:Vec::|slice.*::|<impl \[T\]>::)(push|pop|insert|remove|clear|truncate|drain|swap_remove|swap|reverse)$", e.name)
            if m:
                b = base(q, e.args[0])
                if b == name:
                    return m.group(1) + (" " + value(q, e.args[-1]) if m.group(1) == "push" else "")
        if e.kind == "store":
            b = q.c(e.args[0]) if e.args else ""
            if value(q, e.args[-1]) == b:
                return None
            m = re.search(r"arg1\.(\w+)", b)
            if m and m.group(1) == name:
                return "set " + value(q, e.args[-1])
        return None

    def acc(e):
        if ok and e.res.op == "agg" and e.res.a[1] == "Err":
            return False
        return True

    if nonempty:
        q = restrict(q, lambda e: e.kind == "br" and str(e.args[1]) == "None" and re.fullmatch(r"(?:split_)?(?:last|pop)\w*\((?:mut\()?arg1\.stack\)?\)", q.c(e.args[0])) is not None)
    tr, fin = q.nfa(lab, acc).dfa()
    out = set()
    todo = [(0, ())]
    while todo and len(out) < 50:
        s, w = todo.pop()
        if s < len(fin) and fin[s]:
            out.add(w)
        if len(w) < 5 and s < len(tr):
            for l, m in tr[s].items():
                todo.append((m, w + (l,)))
    return out


def value(q, t):
    t = Sizes(q).follow(t)
    if t.op == "fld" and t.a[2] == "Some":
        x = Sizes(q).follow(t.a[0])
        if x.op == "agg" and x.a[1] == "Some":
            t = Sizes(q).follow(x.a[3][0])
    return q.c(t)


def base(q, t):
    """which field of self a stack value is"""
    name, n = None, 0
    while n < 60:
        n += 1
        if t.op == "param":
            return name
        if t.op == "fld":
            name, t = t.a[1], t.a[0]
        elif t.op in ("out", "upd", "with", "cast"):
            t = t.a[0] if t.op != "cast" else t.a[1]
            if t.op in ("call", "pure") and t.a[1]:
                t = t.a[1][0]
        elif t.op == "phi":
            vs = [v for v in Sizes(q).edges(t).values() if v is not t]
            if not vs:
                break
            t = vs[0]
        elif t.op in ("call", "pure") and t.a[1]:
            name, t = None, t.a[1][0]
        else:
            break
    m = re.search(r"arg1\.(\w+)", q.c(t))
    return m.group(1) if m else None


def marked(q):
    """every successful path with an entry records the #else"""
    ok = lambda e: e.kind == "ret" and not (e.res.op == "agg" and e.res.a[1] == "Err")
    q = restrict(q, lambda e: e.kind == "br" and str(e.args[1]) == "None" and re.fullmatch(r"(?:split_)?(?:last|pop)\w*\((?:mut\()?arg1\.\w+\)?\)", q.c(e.args[0])) is not None)
    mk = lambda e: (e.kind == "store" and base(q, e.args[0]) == "did_else" and q.c(e.args[-1]) == "Option::Some(arg2)") or (e.kind == "call" and re.search(r"(Option::(insert|replace))$", e.name) is not None and base(q, e.args[0]) == "did_else" and q.c(e.args[-1]) == "arg2") or (e.kind == "call" and e.name.endswith("::push") and base(q, e.args[0]) == "did_else" and q.c(e.args[-1]) == "Option::Some(arg2)")
    return q.path_avoiding(mk, ok) is None and any(ok(e) for e in q.events())


def compare_ops(ctx):
    p = ctx.p
    pre = P + "processor::directives::<impl hemtt_preprocessor::processor::Processor>::"
    f = p.find(pre + "directive_ifdef")
    q = ctx.query(f, opaque=OPQ)
    isdef = lambda t: t.op in ("call", "pure") and t.a[0].endswith("Defines::contains_key")
    for e in q.calls(r"IfStates::push_if$"):
        got = {}
        for d in (True, False):
            for o in (True, False):
                kn = lambda q: lambda t: d if isdef(t) else o if t.op == "param" and q.c(t) == "arg3" else None
                qq = settle(q, known=kn)
                got[d, o] = [Truth(qq, kn(qq)).val(x.args[2]) for x in qq.calls(r"IfStates::push_if$") if x.line == e.line]
        ok = all(v is None or v == (d == o) for (d, o), vs in got.items() for v in vs) and all(None not in vs for vs in got.values()) and any(got.values())
        ctx.expect("ifdef.outcome", ok, f"the branch is taken when the macro is defined as asked ({got})", where=e.where())
    for t in {t for e in q.calls(r"Defines::contains_key$") for t in e.args[1:]}:
        ctx.expect("ifdef.name", "next_word(" in q.c(t), "the macro looked up is the one named", where=f.norm, detail=q.c(t)[:120])
    pushed = lambda e: e.kind == "call" and e.name.endswith("IfStates::push_if")
    okret = lambda e: e.kind == "ret" and not (e.res.op == "agg" and e.res.a[1] == "Err")
    n = len({e.line for e in q.events(pushed)})
    ctx.expect("ifdef.pushes", n >= 1, "#ifdef opens a conditional", where=f.norm)
    f = p.find(pre + "directive_if")
    q = ctx.query(f, opaque=lambda k: OPQ(k) or k.endswith(("::read_value", "::resolve_value")))
    pushes = lambda e: e.kind == "call" and e.name.endswith("IfStates::push_if")
    lit = re.compile(r'"([=<>!~&|^+*/%-]*)"')

    def known(op):
        def mk(q):
            def k(t):
                e = equality(t)
                for x, y in ((e[0], e[1]), (e[1], e[0])) if e else ():
                    m = lit.fullmatch(q.c(y))
                    if m and not lit.fullmatch(q.c(x)):
                        return (m.group(1) == op) is e[2]
                if t.op in ("call", "pure") and t.a[0].endswith("::contains"):
                    m = re.match(r"contains\(\[(.*?)\], ", q.c(t))
                    if m and lit.fullmatch(m.group(1).split(", ")[0]):
                        return f'"{op}"' in m.group(1).split(", ")
                return None

            return k

        return mk

    ops = ("==", "!=", ">", ">=", "<", "<=")
    asked = set()
    for e in q.events(lambda e: e.kind == "br" and e.raw == "bool" and isinstance(e.args[0], Term)):
        st = [e.args[0]]
        for t in st:
            eq = equality(t)
            if eq or t.op == "un":
                st += [x for x in (eq[:2] if eq else t.a[1:]) if x.op in ("pure", "bin", "un") and len(st) < 50]
            for y in eq[:2] if eq else ():
                m = lit.fullmatch(q.c(y)) if y.op not in ("phi", "call") else None
                if m:
                    asked.add(m.group(1))
    ctx.expect("if.known", asked >= set(ops), "the comparison operators are told apart by their text", where=f.norm, detail=str(asked))
    for op in ops + tuple(sorted((asked | {"=>", ""}) - set(ops))):
        qq = settle(q, known=known(op))
        ps = [e for e in qq.events(pushes)]
        real = [e for e in ps if not has_include(qq, e)]
        if op not in ops:
            ctx.expect("if.unknown", not real, f"a comparison by {op!r} is an error", where=f.norm)
            continue
        vals = set()
        T_ = Truth(qq, known(op)(qq))
        for e in real:
            st = [(e.args[2], True)]
            seen = set()
            while st:
                t, v = st.pop()
                t, w = T_.simp(t)
                v = v if w else not v
                if t in seen:
                    continue
                seen.add(t)
                if t.op == "phi":
                    st.extend((x, v) for x in T_.S.edges(t).values())
                elif t.op == "int":
                    vals.add(("const", bool(t.a[0]) is v))
                else:
                    r = relation(t, v)
                    vals.add(norm(qq, r) if r else ("?", qq.c(t)[:80]))
        vals.discard(("const", False)) if len(real) < len(ps) else None
        ctx.expect("if." + op, vals == {(kind(op), "left", op, "right")}, f"#if a {op} b compares a {op} b ({sorted(map(str, vals))})", where=f.norm)


def has_include(q, e):
    v = Sizes(q).follow(e.args[2])
    return v.op == "int" and not v.a[0]


def kind(op):
    return "string" if op in ("==", "!=") else "number"


def side(q, t):
    """(string|number, left|right): which operand a compared value is"""
    s = q.c(t)
    k = "number" if re.search(r"parse\(", s) else "string"
    # the right operand is read after the left one
    return k, s


def norm(q, r):
    x, rel, y = r
    (kx, sx), (ky, sy) = side(q, x), side(q, y)
    if kx != ky:
        return ("?", kx, ky)
    # the left operand's text is part of what was read first
    nx, ny = order(q, x), order(q, y)
    if nx == ny:
        return ("?", "operands", sx[:60], sy[:60])
    if nx > ny:
        rel = SWAP[rel]
    return (kx, "left", rel, "right")


def order(q, t):
    """the number of value reads an operand depends on being made before it"""
    rd = reaches(q.g, t, lambda x: x.op in ("call", "pure") and x.a[0].endswith("::read_value"), 20000)
    n = 0
    for c in rd:
        k = 0
        st, seen = list(c.a[1]), set()
        while st and len(seen) < 20000:
            y = st.pop()
            if y in seen:
                continue
            seen.add(y)
            if y.op in ("call", "pure") and y.a[0].endswith("::read_value"):
                k += 1
            if y.op == "phi":
                st.extend(q.g.phi.get(y, ()))
            else:
                st.extend(subterms(y) if y.op not in ("call", "pure") else [a for a in y.a[1] if type(a) is Term])
        n = max(n, k)
    return n
