"""Scopes of #pragma hemtt suppress and flag."""
import itertools
from rules import *
from lin import *
from coll import *
from logic import *
from C03 import rets

META = dict(
    title="A hemtt pragma lasts exactly for its scope",
    statement="A suppression or flag set by #pragma hemtt lasts for the next line with scope line (also when none is given), for the rest of the file without its includes with scope file, and for the files included from then on too with scope config. A later pragma with a narrower scope never shortens a wider one, and an unknown code, flag or scope is an error that changes nothing. The padded argument warning is given for a macro argument that starts or ends with whitespace unless it is suppressed, or ignored by the flag for a macro of the listed families.",
    over=["inputs", "histories"],
    forall="all sequences of pragmas with every combination of scopes, includes and lines",
    why="the fixtures use single pragmas; what is left of a set of pragmas after a line or an include depends on their combination",
    files=["libs/preprocessor/src/processor"],
    mech=[("Pragma", "libs/preprocessor/src/processor/pragma.rs"), ("pragma directive, include", "libs/preprocessor/src/processor/directives.rs"), ("line", "libs/preprocessor/src/processor/mod.rs"), ("padded argument", "libs/preprocessor/src/processor/defines.rs")],
    technique="case analysis by scope of MIR event graphs (what each collection keeps), ordering of the per-line reset, truth table of the warning condition",
    note="Where the next line ends for directives is taken from the code: a directive line does not end line-scoped pragmas.",
)

P = "hemtt_preprocessor::"
PR = "<impl hemtt_preprocessor::processor::Processor>::"
OPQ = lambda k: bool(re.search(r"Processor>?::(walk|output|line|file|directive\w*|read_pragma|call_read_args|define_\w+|next_word|current_word|skip_\w+|expect_\w+)$|defines::Defines::|::code$|Pragma::|FunctionDefinition::|fmt::|parse::parse$|::locate$|IfStates::reading$", k))
SC = "hemtt_preprocessor::processor::pragma::Scope"
okret = lambda e: e.kind == "ret" and not (e.res.op == "agg" and e.res.a[1] == "Err")
errs = lambda q: [e for e in rets(q)]
MAPS = ("suppress", "flags")


def scopes(ctx):
    p = ctx.p
    order = [v for v, *_ in p.variants(SC)] if p.variants(SC) and not isinstance(p.variants(SC)[0], str) else list(p.variants(SC))
    ctx.expect("scopes", set(order) == {"Line", "File", "Config"}, "there are three scopes", where=SC)
    PG = P + "processor::pragma::Pragma::"

    def elements(m, v):
        """every entry of the map has scope v"""
        rx = re.compile(rf"arg1\.{m}\[\*\](\.|#)1")
        return lambda q: Case(q, order, lambda t: v if rx.fullmatch(q.c(t)) else None)

    ctx.rule("per scope: what is kept after a line, what an included file starts with")
    for fn, keep in (("clear_line", ("File", "Config")), ("child", ("Config",))):
        q0 = ctx.query(p.find(PG + fn))
        for v in order:
            cs = [elements(m, v) for m in MAPS]
            kn = lambda q: (lambda ks: lambda t: next((x for x in (k.known(t) for k in ks) if x is not None), None))([c(q) for c in cs])
            qq = settle(q0, [(r"arg1\.(suppress|flags)\[\*\](\.|#)1", [v])], kn)
            for m in MAPS:
                got = set()
                for e in rets(qq):
                    src = e.raw.get(1) if fn == "clear_line" else e.res
                    ts = reads(qq, src, m) if src is not None else set()
                    got |= {subset(qq, t, f"arg1.{m}", kn(qq)) for t in ts} or {None}
                ctx.expect(f"{fn}.{m}.{v}", got == {"all" if v in keep else "none"}, f"{'after a line' if fn == 'clear_line' else 'in an included file'} {m} with scope {v} are {'kept' if v in keep else 'dropped'}", where=PG + fn, detail=str(got))
    q0 = ctx.query(p.find(PG + "root"))
    ctx.expect("root", bool(rets(q0)) and all(subset(q0, t, "nothing") == "none" for e in rets(q0) for m in MAPS for t in reads(q0, e.res, m)), "a source starts without suppressions and flags", where=PG + "root")

    ctx.rule("the widest scope set for a code is the one that counts; names that are not known change nothing")
    for fn, m, ty in (("suppress", "suppress", "Suppress"), ("flag", "flags", "Flag")):
        q0 = ctx.query(p.find(PG + fn))
        codes = list(p.variants(P + "processor::pragma::" + ty))
        G = rf"(?:get|get_mut|remove|insert)\(arg1\.{m}, .*\)"
        ins = lambda e: e.kind == "call" and re.search(r"HashMap::(insert|entry|remove|clear|retain|get_mut)$", e.name) is not None
        for ex in [None] + order:
            for new in order:
                def of(q):
                    def f(t):
                        s = q.c(t)
                        return new if s == "arg3" else ex if re.fullmatch(G + r"\?", s) else None
                    return f
                kn = lambda q: Case(q, order, of(q)).known
                w = [(G, ["None" if ex is None else "Some"]), (G + r"\?", [ex]), ("arg3", [new])]
                qq = settle(q0, w[:1] + w[2:] + ([w[1]] if ex else []), kn)
                C = Case(qq, order, of(qq))
                top = new if ex is None else max(ex, new, key=order.index)
                ok = any(okret(e) for e in qq.events())
                put = [e for e in qq.events(ins)]
                if put:
                    ok = ok and all(e.name.endswith("insert") and C.variant(e.args[2]) == top and base_field(qq, e.args[0]) == m for e in put) and qq.path_avoiding(ins, okret) is None
                else:
                    ok = ok and ex == top
                ctx.expect(f"{fn}.{ex}.{new}", ok, f"scope {new} on top of {ex or 'nothing'} gives {top}", where=PG + fn, detail=str([[qq.c(a) for a in e.args] for e in put])[:200])
        bad = next((tr for tr in [q0.path_avoiding(lambda e: False, lambda e: e.kind == "ret" and not okret(e), start=ins)] if tr), None)
        ctx.expect(f"{fn}.unknown", bad is None and any(e.kind == "ret" and not okret(e) for e in q0.events()), "an unknown name is an error and nothing is changed", bad or (), PG + fn)
        # each name selects its own code
        names = list(q0.p.variants(P + "processor::pragma::" + ty))
        for n in names:
            lit = ident(n)
            kn = lambda q: lambda t: (lambda e: None if not e else next(((m_.group(1) == lit) is e[2] for x, y in ((e[0], e[1]), (e[1], e[0])) for m_ in [re.fullmatch(r'"([^"]*)"', q.c(y))] if m_ and re.search(r"to_string\(arg2(\.symbol)?\)|arg2", q.c(x))), None))(equality(t))
            qq = settle(q0, [], kn)
            ks = {qq.c(e.args[1]) for e in qq.events(ins) if e.name.endswith("insert")}
            ctx.expect(f"{fn}.name.{n}", ks == {f"{ty}::{n}"}, f"{lit} sets {n}", where=PG + fn, detail=str(ks))
        q = ctx.query(p.find(PG + ("is_suppressed" if fn == "suppress" else "is_flagged")))
        ok = all((r := Sizes(q).follow(e.res)).op in ("call", "pure") and (r.a[0].endswith("contains_key") and q.c(r) == f"contains_key(arg1.{m}, arg2)" or r.a[0].endswith("is_some") and q.c(r.a[1][0]) == f"get(arg1.{m}, arg2)") for e in rets(q))
        ctx.expect(f"{fn}.asked", ok and bool(rets(q)), "a code is set when it is in the collection", where=PG + fn)
    f = p.find_impl("core::convert::TryFrom", SC, "try_from") if hasattr(p, "find_impl") else None
    if f is not None:
        q0 = ctx.query(f)
        for name, v in (("line", "Line"), ("file", "File"), ("config", "Config"), ("lines", None)):
            kn = lambda q: lambda t: (lambda e: None if not e else next(((m_.group(1) == name) is e[2] for x, y in ((e[0], e[1]), (e[1], e[0])) for m_ in [re.fullmatch(r'"([^"]*)"', q.c(y))] if m_ and q.c(x) == "arg1"), None))(equality(t))
            qq = settle(q0, [], kn)
            got = {qq.c(live(qq, e.res)) for e in rets(qq)}
            want = {f"Result::Ok(Scope::{v})"} if v else None
            ctx.expect(f"scope.{name}", got == want if v else all(s.startswith("Result::Err") for s in got), f"{name} is {v or 'no scope'}", where=f.norm, detail=str(got))


def ident(n):
    """the documented spelling of a code"""
    return {"Pw3PaddedArg": "pw3_padded_arg", "Pw3IgnoreFormat": "pw3_ignore_format", "Pe23IgnoreIfHasInclude": "pe23_ignore_has_include"}.get(n, re.sub(r"(?<!^)(?=[A-Z])", "_", n).lower())


def live(q, t):
    return Sizes(q).follow(t)


def base_field(q, t):
    t = live(q, t)
    n = 0
    while n < 40:
        n += 1
        t = live(q, t)
        if t.op == "fld":
            return t.a[1]
        if t.op == "out" and t.a[0].op in ("call", "pure"):
            t = t.a[0].a[1][t.a[1]]
        elif t.op in ("upd", "with"):
            t = t.a[0]
        else:
            return None


def flow(ctx):
    p = ctx.p
    ctx.rule("line-scoped entries are dropped after each line that is no directive, and only then")
    f = p.find(P + "processor::Processor::line")
    q = ctx.query(f, opaque=OPQ)
    clr = lambda e: e.kind == "call" and e.name.endswith("Pragma::clear_line")
    dirs = lambda e: e.kind == "call" and re.search(r"Processor>?::directive$", e.name) is not None
    work = lambda e: e.kind == "call" and re.search(r"Processor>?::(walk|directive|skip_to_after_newline)$", e.name) is not None
    D = r"directive\(.*\)\?"
    for v in (True, False):
        kn = lambda qq: lambda t: v if re.fullmatch(D, qq.c(t)) and t.op == "fld" else None
        qq = settle(q, [], kn)
        if v:
            e = next(iter(qq.events(clr)), None)
            ctx.expect("line.directive", e is None and any(okret(x) for x in qq.events()), "a directive line does not end the pragmas for the next line", where=f.norm)
        else:
            tr = qq.path_avoiding(clr, okret)
            ctx.expect("line.cleared", tr is None and any(okret(x) for x in qq.events()), "line-scoped pragmas end with the line", tr or (), f.norm)
            tr = qq.path_avoiding(lambda e: False, work, start=clr)
            ctx.expect("line.order", tr is None, "the line is processed before its pragmas end", tr or (), f.norm)
    who = set()
    for b in p.fns.values():
        if b.norm.startswith(P) and "::tests::" not in b.norm:
            for blk in b.blocks:
                t = blk["t"]
                if t[0] == "call" and "fn" in t[1] and strip_gen(t[1].get("r") or t[1]["fn"]).endswith("Pragma::clear_line"):
                    who.add(b.norm)
    reach = {f.norm} | q.g.inlined
    ctx.expect("line.only", who <= reach and bool(who), "nothing else ends the pragmas of a line", where=f.norm, detail=str(who))
    f = p.find(P + "processor::directives::" + PR + "directive_include")
    q = ctx.query(f, opaque=OPQ)
    run = [e for e in q.calls(r"Processor::file$")]
    pi = [i + 1 for i in range(f.argc) if "Pragma" in str(f.locals[i + 1][0])]
    ctx.expect("include.child", len(run) >= 1 and all(re.fullmatch(rf"(mut\()?child\(arg{pi[0]}\)\)?", q.c(e.args[1])) for e in run), "an included file starts with the child of the pragmas", where=f.norm, detail=str([q.c(e.args[1]) for e in run]))
    touch = [e for e in q.calls(r"Pragma::(suppress|flag|clear_line)$")]
    ctx.expect("include.parent", not touch, "an include does not change the pragmas of the including file", where=f.norm)
    f = p.find(P + "processor::Processor::run")
    q = ctx.query(f, opaque=OPQ)
    ctx.expect("run.root", all(re.fullmatch(r"(mut\()?root\(\)\)?", q.c(e.args[1])) for e in q.calls(r"Processor::file$")), "a source is read with fresh pragmas", where=f.norm)

    ctx.rule("the directive sets what it names")
    f = p.find(P + "processor::directives::" + PR + "directive_command")
    q0 = ctx.query(f, opaque=OPQ)
    CMD = r".*next_word\(.*"
    for name in ("suppress", "flag", "something"):
        def kn(q):
            def k(t):
                if t.op in ("call", "pure") and t.a[0].endswith("IfStates::reading"):
                    return True
                e = equality(t)
                for x, y in ((e[0], e[1]), (e[1], e[0])) if e else ():
                    m = re.fullmatch(r'"([^"]*)"', q.c(y))
                    if m and "next_word(" in q.c(x):
                        # the first word is hemtt, the other one the name
                        return (m.group(1) in ("hemtt", name)) is e[2]
                    if m and re.match(r"(to_string|as_str)\(", q.c(x)):
                        return (m.group(1) == "pragma") is e[2]
                return None
            return k
        qq = settle(q0, [], kn)
        act = [e for e in qq.calls(r"Pragma::(suppress|flag|clear_line|child)$")]
        if name == "something":
            ctx.expect("pragma.unknown", not act and not any(okret(e) for e in qq.events()) and bool(rets(qq)), "an unknown pragma command is an error", where=f.norm, detail=str([(e.name, e.line) for e in act]))
            continue
        isact = lambda e: any(e is a for a in act)
        tr = qq.path_avoiding(isact, okret)
        R = r"read_pragma\(.*\)\?"
        ok = bool(act) and tr is None and all(e.name.endswith("Pragma::" + name) and re.fullmatch(R + r"\.0", q0.c(e.args[1])) and re.fullmatch(R + r"\.1", q0.c(e.args[2])) for e in act)
        ctx.expect(f"pragma.{name}", ok, f"#pragma hemtt {name} sets the code read with the scope read", tr or (), f.norm, detail=str([[q0.c(a)[:80] for a in e.args] for e in act]))
    f = p.find(P + "processor::directives::" + PR + "read_pragma")
    q = ctx.query(f, opaque=lambda k: OPQ(k) or k.endswith("TryFrom::try_from") or "Scope" in k and "try_from" in k)
    for e in q.events():
        if okret(e):
            s = live(q, e.res)
            s = live(q, s.a[3][0]) if s.op == "agg" else s
            txt = [q.c(x) for x in s.a[3]] if s.op == "agg" else []
            ok = len(txt) == 2 and re.match(r"next_word\(", txt[0]) and "next_word(" in txt[1] and '"line"' in txt[1] and not re.search(r'"(file|config)"', txt[1])
            ctx.expect("pragma.scope", ok, "the code is the first word, the scope the second, line when there is none", where=e.where(), detail=str(txt)[:300])


def padded(ctx):
    p = ctx.p
    ctx.rule("truth table of the padded argument warning")
    f = p.find(P + "processor::defines::" + PR + "define_use")
    q0 = ctx.query(f, opaque=OPQ)
    G = r"get_with_gen\(.*\)\?"
    want = {"ARR_", "TRACE_", "INFO_", "WARNING_", "ERROR_", "DEBUG_", "FORMAT_"}
    elems = {Canon(q0).elem(t.a[1][0]) for t in q0.g.cbret if t.op in ("call", "pure") and t.a[1]} | {el for _, _, el, _ in loop_heads(q0)}
    fams = {x for x in elems if set(re.findall(r'"([^"]*)"', x)) == want}
    ctx.expect("padded.families", len(fams) == 1, "the flag is about the documented families of macros", where=f.norm, detail=str([x for x in elems if '_"' in x]))
    if len(fams) != 1:
        return
    fam = fams.pop()

    def none_starts(q):
        """branches that tell whether the macro's name starts with the family's prefix"""
        def cls(ev):
            t = ev.args[0]
            if t.op in ("call", "pure") and t.a[0].split("::")[-1] == "starts_with" and re.fullmatch(r"to_string\(arg4\[\*\](\.symbol)?\)", q.c(t.a[1][0])) and q.c(t.a[1][1]) in (fam, fam.replace('[*]', '')):
                return str(ev.args[1]) != "True"
            return None
        return cls

    looked = set()
    for sup, flg, hit, sym in itertools.product((False, True), (False, True), (False, True), ("Whitespace", "Word", "Newline")):
        pad = sym == "Whitespace"
        def kn(q):
            memo = {}

            def k(t):
                if t in memo:
                    return memo[t]
                memo[t] = None
                if t.op in ("call", "pure"):
                    n = t.a[0].split("::")[-1]
                    if n in ("is_suppressed", "is_flagged"):
                        s = q.c(t.a[1][1])
                        memo[t] = sup if s == "Suppress::Pw3PaddedArg" else flg if s == "Flag::Pw3IgnoreFormat" else None
                        return memo[t]
                if t.op in ("call", "pure", "phi") and (t.op == "phi" or t.a[0].split("::")[-1] in ("any", "all", "is_some", "is_none")):
                    if forall(q, t, fam, none_starts(q)):
                        memo[t] = not hit
                    elif forall(q, T("un", "Not", t), fam, none_starts(q)):
                        memo[t] = hit
                return memo[t]
            return k
        qq = settle(q0, [(G + r"\.1", ["Function"]), (r"(first|last)\(.*\)|\[first.*\]\[\*\]", ["Some"]), (r"next\(arg4\)|peek\(arg4\)", ["Some"]), (r".*(first|last)\(.*\?\.symbol", [sym])], kn)
        warn = [e for e in qq.events() if e.kind == "call" and e.name.endswith("Vec::push") and base_field(qq, e.args[0]) == "warnings"]
        expect = not sup and not (flg and hit) and pad
        if warn:
            looked |= {x for e in qq.events() if e.kind == "br" and "Whitespace" in str(e.args[1]) and type(e.args[0]) is Term for x in re.findall(r"\b(first|last)\(call_read_args", qq.c(e.args[0]))}
        ctx.expect(f"padded.{int(sup)}{int(flg)}{int(hit)}{sym}", bool(warn) is expect, f"a {'padded' if pad else 'bare'} argument{' of a listed macro' if hit else ''}, {'' if sup else 'not '}suppressed, flag {'' if flg else 'not '}set, gives {'a' if expect else 'no'} warning", where=f.norm)
    ctx.expect("padded.ends", looked == {"first", "last"}, "both ends of the argument are looked at", where=f.norm, detail=str(looked))


def run(ctx):
    ctx.load(["hemtt_preprocessor", "hemtt_workspace", "hemtt_common"])
    scopes(ctx)
    flow(ctx)
    padded(ctx)
