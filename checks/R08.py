"""#include."""
from rules import *
from lin import *
from coll import *
from logic import *
from C03 import rets
from R06 import base_field, live, okret

META = dict(
    title="#include reads exactly the file it names, in place",
    statement="An #include with a path in quotes or angle brackets looks up exactly the text between the matching enclosures, relative to the file that contains the directive, and the tokens of the file found are processed in place, once, with the pragmas of config scope, before the line after it. A path that is not closed on its line, is followed by something else, or is not found is an error, as is any error in the file; a path that is only found with another case gives a warning that says so. During an included file, and only then, that file is the one that paths are relative to.",
    over=["inputs", "histories"],
    forall="all include lines, all nestings of includes, all outcomes of the lookup and of the included file",
    why="the fixtures use a few includes one or two levels deep; the stack of files after an error or a nested include, and each malformed line, are not among them",
    files=["libs/preprocessor/src/processor", "libs/workspace/src/reporting"],
    mech=[("directive_include", "libs/preprocessor/src/processor/directives.rs"), ("run", "libs/preprocessor/src/processor/mod.rs"), ("enclosures", "libs/workspace/src/reporting/symbol.rs")],
    technique="case analysis over the kinds of the opening and following tokens, ordering and provenance queries on MIR event graphs",
    note="What the lookup finds is the subject of the workspace properties.",
)

P = "hemtt_preprocessor::"
DI = P + "processor::directives::<impl hemtt_preprocessor::processor::Processor>::directive_include"
OPQ = lambda k: bool(re.search(r"Processor>?::(walk|output|line|file|directive\w*|read_pragma|call_read_args|define_\w+|next_word|current_word|skip_\w+|expect_\w+)$|::code$|Pragma::|fmt::|parse::parse$|::locate$|Symbol as core::cmp::PartialEq|IncludeCase::new|codes::", k))
CLOSE = {"DoubleQuote": "DoubleQuote", "LeftAngle": "RightAngle"}
KINDS = ["Word", "Digit", "Slash", "Escape", "Decimal", "Whitespace", "Comment", "DoubleQuote", "SingleQuote", "LeftAngle", "RightAngle", "Newline", "Eoi", "Directive", "LeftParenthesis", "RightBracket"]
NEXT_ = lambda e: e.kind == "call" and re.search(r"(Iterator|PeekMoreIterator)::(next|peek)$", e.name) is not None


def source(q):
    """symbol term -> the call its token was read by"""

    def symbol(t):
        for _ in range(30):
            t = live(q, t)
            if t.op == "fld":
                t = t.a[0]
            elif t.op in ("call", "pure"):
                if t.a[0].split("::")[-1] in ("next", "peek"):
                    return t
                if t.a[1] and t.a[0].split("::")[-1] in ("symbol", "deref", "as_ref", "clone", "borrow", "to_string", "as_str"):
                    t = t.a[1][0]
                else:
                    return None
            else:
                return None
        return None
    return symbol


def run(ctx):
    p = ctx.load(["hemtt_preprocessor", "hemtt_workspace", "hemtt_common"])
    f = p.find(DI)
    q0 = ctx.query(f, opaque=OPQ)
    st = [i for i in range(1, f.argc + 1) if "PeekMore" in str(f.locals[i][0])][0]
    bufi = [i for i in range(1, f.argc + 1) if "Output" in str(f.locals[i][0])][0]
    loc = lambda e: e.kind == "call" and e.name.endswith("WorkspacePath::locate")
    run_ = lambda e: e.kind == "call" and re.search(r"Processor>?::file$", e.name) is not None
    strm = lambda t: from_stream(q0, t, st)
    NEXT = lambda e: NEXT_(e) and strm(e.args[0])
    NEXT_T = lambda t: NEXT_T_(t) and strm(t.a[1][0])
    first = {id(e) for e in q0.events(NEXT) if q0.path_avoiding(lambda x: NEXT(x) and x is not e, lambda x: x is e) is not None}
    later = {id(e) for e in q0.events(NEXT) if q0.path_avoiding(lambda x: False, lambda x: x is e, start=NEXT) is not None}
    opening = {e.res for e in q0.events(NEXT) if id(e) in first - later}
    ctx.expect("tokens", bool(opening) and bool(later), "the opening enclosure and the path are read from the stream", where=DI)

    def case(v, u):
        """the paths on which the opening token is a v and every later token a u"""
        def which(q):
            symbol = source(q)
            def kind(t):
                c = symbol(t)
                return None if c is None else v if c in opening else u
            return kind

        def dead(q):
            kind = which(q)
            def d(e):
                if e.kind != "br" or e.raw != "variant" or not isinstance(e.args[1], str) or e.args[1] == "?" or type(e.args[0]) is not Term:
                    return False
                if {"Some", "None", "Ok", "Err"} & set(e.args[1].split("|")):
                    c = live(q, e.args[0])
                    return c.op in ("call", "pure") and c in opening and e.args[1] == "None"
                if isinstance(e.args[0], Term) and (live(q, e.args[0]).op == "fld" or e.args[0].op in ("call", "pure")):
                    k = kind(e.args[0])
                    return k is not None and k not in e.args[1].split("|")
                return False
            return d

        def known(q):
            kind = which(q)
            C = Case(q, [], kind)
            T_ = Truth(q)
            def kn(t):
                e = equality(t)
                if not e:
                    return None
                x, y = (kind(z) or (lambda vs: next(iter(vs)) if vs and len(vs) == 1 else None)(T_.variants(z)) for z in e[:2])
                return None if x is None or y is None else (x == y) is e[2]
            return kn
        return settle(q0, (), known, dead=dead)

    ctx.rule("for each kind of opening token and of token after it: the path ends at the matching enclosure, a line end or the end of input before it is an error, everything else belongs to the path")
    for v in KINDS:
        q = case(v, "Word")
        tr = next((e for e in q.events() if loc(e) or run_(e) or okret(e)), None)
        if v not in CLOSE:
            ctx.expect(f"open.{v}", tr is None and bool(rets(q)), "a path without enclosure is an error", where=tr.where() if tr else DI)
            continue
        for u in KINDS:
            q = case(v, u)
            def more(e):
                return NEXT(e) and e.res not in opening
            src = source(q)
            read = lambda t: (lambda c: c is not None and c not in opening and NEXT_T(c))(src(t))
            goes = any(loc(e) for e in q.events())
            if u == CLOSE[v]:
                tr = q.path_avoiding(lambda e: False, lambda e: more(e), start=lambda e: e.kind == "br" and e.args[1] == "Some" and type(e.args[0]) is Term and e.args[0].op in ("call", "pure") and e.args[0] not in opening and NEXT_T(e.args[0]))
                ctx.expect(f"close.{v}.{u}", goes and tr is None, "the path ends at the matching enclosure", tr or (), DI)
            elif u in ("Newline", "Eoi"):
                sm = lambda e: e.kind == "br" and e.args[1] == "Some" and type(e.args[0]) is Term and NEXT_T(e.args[0]) and e.args[0] not in opening
                tr = q.path_avoiding(lambda e: False, lambda e: loc(e) or okret(e) or more(e), start=sm)
                ctx.expect(f"close.{v}.{u}", tr is None, "an enclosure that is not closed on its line is an error", tr or (), DI)
            else:
                sm = lambda e: e.kind == "br" and e.args[1] == "Some" and type(e.args[0]) is Term and NEXT_T(e.args[0]) and e.args[0] not in opening
                put = lambda e: e.kind == "call" and re.search(r"(Vec::push|String::push_str)$", e.name) is not None and base_field(q, e.args[0]) is None and read(e.args[1])
                tr = q.path_avoiding(put, lambda e: more(e) or e.kind == "ret" or loc(e), start=sm)
                n = q.path_avoiding(lambda e: more(e), put, start=put)
                lv = q.path_avoiding(lambda e: more(e), lambda e: e.kind == "ret" or loc(e), start=put)
                ctx.expect(f"inside.{v}.{u}", tr is None and n is None and lv is None and any(put(e) for e in q.events()), "the text between the enclosures belongs to the path", tr or n or lv or (), DI)
    nx = lambda e: e.kind == "br" and e.args[1] == "None" and type(e.args[0]) is Term and NEXT_T(e.args[0])

    ctx.rule("the text looked up is that of all tokens of the path, relative to the file on top of the stack")
    locs = [e for e in q0.events(loc)]
    ctx.expect("lookup", locs and q0.path_avoiding(lambda e: False, loc, start=loc) is None, "one lookup", where=DI)
    for e in locs:
        recv = q0.c(e.args[0])
        ctx.expect("lookup.base", re.fullmatch(r"(last\((mut\()?arg1\)?\.file_stack\)\?|(mut\()?arg1\)?\.file_stack\[(-1|last)\])", recv) is not None, "the path is relative to the file that contains the directive", where=e.where(), detail=recv)
        s = q0.c(e.args[1])
        L = r"list\[ref\([^\[]*\[\*\]\]|list\[.*\[\*\]\]"
        ok = re.fullmatch(rf"(collect|concat|join|from_iter)\(map\((iter\()?({L})\)?, fn:<T as ToString>::to_string\)(, \"\")?\)", s) is not None or whole(q0, e.args[1]) or mapped(q0, e.args[1])
        ctx.expect("lookup.text", ok, "the text between the enclosures is looked up", where=e.where(), detail=s[:200])
        # before the lookup, nothing else on the line
    exp = lambda e: e.kind == "call" and e.name.endswith("expect_nothing_to_newline")
    tr = q0.path_avoiding(exp, lambda e: run_(e) or okret(e))
    ctx.expect("suffix", tr is None, "something after the path is looked for", tr or (), DI)
    ERR = r"expect_nothing_to_newline\(.*\)"
    q = settle(q0, [(ERR, ["Err"]), (ERR + r"\.0@Err", ["Code"])])
    bad = next((e for e in q.events() if run_(e) or okret(e)), None)
    ctx.expect("suffix.error", bad is None and bool(rets(q)), "something after the path is an error", where=bad.where() if bad else DI)

    ctx.rule("what is found is parsed, pushed, processed into the same output and popped again on every outcome; no file, no success")
    LOC = r"locate\(.*\)"
    for nm, w in (("none", [(LOC + r"\?", ["None"])]), ("error", [(LOC, ["Err"])])):
        q = settle(q0, [(LOC, ["Ok"])] + w if nm == "none" else w)
        bad = next((e for e in q.events() if run_(e) or okret(e)), None)
        ctx.expect(f"found.{nm}", bad is None and bool(rets(q)), "a file that is not found is an error", where=bad.where() if bad else DI)
    F = re.compile(r"locate\(.*\)\?\?\.path")
    runs = [e for e in q0.events(run_)]
    push = lambda e, n: e.kind == "call" and e.name.endswith("Vec::push") and base_field(q0, e.args[0]) == n
    pop = lambda e: e.kind == "call" and re.search(r"Vec::(pop|truncate|remove)$", e.name) is not None and base_field(q0, e.args[0]) == "file_stack"
    ctx.expect("file.one", len(runs) >= 1 and q0.path_avoiding(lambda e: False, run_, start=run_) is None, "the file found is processed once", where=DI)
    tr = q0.path_avoiding(run_, okret)
    ctx.expect("file.always", tr is None, "no include succeeds without processing the file found", tr or (), DI)
    for e in runs:
        s = q0.c(e.args[2])
        m = re.search(r"parse::parse\((.*)\)\?", s)
        ctx.expect("file.tokens", m is not None and F.fullmatch(m.group(1)) is not None and not re.search(r"\b(skip|take|rev|filter|map|chain)\(", s.replace(m.group(1), "")), "the tokens processed are all those of the file found", where=e.where(), detail=s[:200])
        b = obj(e.args[3], q0.g)
        ctx.expect("file.output", b.op == "param" and b.a[0] == bufi, "what the file gives goes to the output of the including file", where=e.where(), detail=str(b))
        rec = obj(e.args[0], q0.g)
        ctx.expect("file.state", rec.op == "param" and rec.a[0] == 1, "the file sees the macros and conditionals of the including file", where=e.where())
    for n in ("file_stack", "included_files"):
        ps = [e for e in q0.events(lambda e: push(e, n))]
        ok = bool(ps) and all(F.fullmatch(re.sub(r"^clone\((.*)\)$", r"\1", q0.c(e.args[1]))) for e in ps)
        tr = q0.path_avoiding(lambda e: push(e, n), run_)
        two = q0.path_avoiding(lambda e: pop(e) and n == "file_stack", lambda e: push(e, n), start=lambda e: push(e, n))
        ctx.expect(f"{n}.push", ok and tr is None and two is None, "the file found is on the stack while it is processed" if n == "file_stack" else "the file found is listed as included", tr or two or (), DI, detail=str([q0.c(e.args[1])[:60] for e in ps]))
    pops = [e for e in q0.events(pop)]
    tr = q0.path_avoiding(pop, lambda e: e.kind == "ret", start=lambda e: push(e, "file_stack"))
    tr2 = q0.path_avoiding(lambda e: push(e, "file_stack"), pop)
    tr3 = q0.path_avoiding(lambda e: push(e, "file_stack"), pop, start=pop)
    tr4 = q0.path_avoiding(run_, pop, start=lambda e: push(e, "file_stack"))
    ctx.expect("file_stack.pop", bool(pops) and all(e.name.endswith("pop") for e in pops) and not (tr or tr2 or tr3 or tr4), "afterwards, also after an error, paths are relative to the including file again", tr or tr2 or tr3 or tr4 or (), DI)
    other = [e for e in q0.events() if e.kind == "call" and re.search(r"(Vec|slice\w*|\[T\]>)::(clear|truncate|insert|remove|swap|drain|retain|sort\w*|dedup\w*|append|extend)$", e.name) and base_field(q0, e.args[0]) in ("file_stack", "included_files")]
    ctx.expect("file_stack.only", not other, "nothing else changes the stack of files", where=other[0].where() if other else DI)
    FR = r"file\(.*\)"
    for v in ("Ok", "Err"):
        q = settle(q0, [(FR, [v])])
        res = [e for e in rets(q) if q.path_avoiding(lambda x: False, lambda x: x is e, start=run_) is not None]
        ok = bool(res)
        for e in res:
            t = live(q, e.res)
            s = q.c(t)
            if re.fullmatch(FR, s):
                continue
            if v == "Ok":
                ok = ok and (t.op == "agg" and t.a[1] == "Ok")
            else:
                ok = ok and t.op == "agg" and t.a[1] == "Err" and re.search(r"file\(.*\)\.0@Err", s) is not None
        ctx.expect(f"result.{v}", ok, "an include succeeds exactly when the file does, and its error is passed on", where=DI, detail=str([q.c(e.res)[:80] for e in res]))
    q = settle(q0, [(r"parse::parse\(.*\)", ["Err"])])
    bad = next((e for e in q.events() if run_(e) or okret(e)), None)
    ctx.expect("result.parse", bad is None and bool(rets(q)), "a file that can not be read is an error", where=bad.where() if bad else DI)

    ctx.rule("the case warning is given exactly when the lookup says the case differs")
    CM = r"locate\(.*\)\?\?\.case_mismatch"
    for v in ("Some", "None"):
        q = settle(q0, [(CM, [v]), (LOC, ["Ok"]), (LOC + r"\?", ["Some"])])
        warn = lambda e: e.kind == "call" and e.name.endswith("Vec::push") and base_field(q, e.args[0]) == "warnings"
        ws = [e for e in q.events(warn)]
        if v == "Some":
            tr = q.path_avoiding(warn, run_)
            ok = bool(ws) and tr is None and q.path_avoiding(lambda e: False, warn, start=warn) is None
            ok = ok and all(re.search(r"IncludeCase::new\(.*, " + CM + r"\??\)", q.c(e.args[1])) for e in ws)
            ctx.expect("case.warned", ok, "a path in another case gives one warning with the path on disk", tr or (), DI, detail=str([q.c(e.args[1])[-80:] for e in ws]))
        else:
            ctx.expect("case.quiet", not ws and any(run_(e) for e in q.events()), "a path in the right case gives no warning", where=ws[0].where() if ws else DI)

    ctx.rule("a source starts as the only file on the stack, and only includes change the stack")
    f = p.find(P + "processor::Processor::run")
    q = ctx.query(f, opaque=OPQ)
    rs = [e for e in q.events(run_)]
    st = [q.c(t) for e in rs for t in reads(q, obj(e.args[0], q.g), "file_stack")] + [q.c(t) for e in rs for t in reads(q, e.args[0], "file_stack")]
    ctx.expect("root", bool(rs) and "list[arg1]" in st and set(st) <= {"list[arg1]", "list[]"}, "paths in a source are relative to it", where=f.norm, detail=str(st))
    pr = [e for e in q.events() if e.kind == "call" and e.name.endswith("parse::parse")]
    ctx.expect("root.tokens", bool(pr) and all(q.c(e.args[0]) == "arg1" for e in pr) and all(re.search(r"parse::parse\(arg1\)", q.c(e.args[2])) for e in q.events(run_)), "the source itself is processed", where=f.norm)
    mine = {f.norm, DI} | q.g.inlined | q0.g.inlined
    who = {b.norm for b in p.fns.values() if b.norm.startswith(P) and "::tests::" not in b.norm and not any(b.norm == m or b.norm.startswith(m + "::{closure") for m in mine) and touches(b, "file_stack")}
    ctx.expect("stack.only", not who, "only includes change the stack of files", where=next(iter(who), DI))


def touches(b, name):
    """does the function mutably borrow, or assign to, a field of that name?"""
    has = lambda pl: any(type(x) is list and x[0] == "f" and x[2] == name for x in pl[1:])
    return any(has(s[0]) or s[1][0] == "ref" and s[1][1] == 1 and has(s[1][2]) for blk in b.blocks for s in blk["s"] if type(s[0]) is list)


def from_stream(q, t, i):
    """is t (a view of) the token stream that is the i-th parameter?"""
    for _ in range(10):
        t = obj(t, q.g)
        if t.op in ("call", "pure") and t.a[1] and t.a[0].split("::")[-1] in ("by_ref", "into_iter", "deref_mut", "borrow_mut", "as_mut"):
            t = t.a[1][0]
    return t.op == "param" and t.a[0] == i or t.op == "ref" and t.a[0][:2] == (0, -i)


def NEXT_T_(t):
    return t.op in ("call", "pure") and t.a[0].split("::")[-1] in ("next", "peek")


def mapped(q, t):
    """the concatenation of the texts of all tokens of a list"""
    t = live(q, t)
    while t.op in ("call", "pure") and t.a[1] and t.a[0].split("::")[-1] in ("collect", "concat", "from_iter", "deref", "as_str"):
        t = live(q, t.a[1][0])
    if not (t.op in ("call", "pure") and t.a[0].split("::")[-1] == "map"):
        return False
    el = Canon(q).elem(t.a[1][0])
    rs = [q.c(r) for r in q.g.cbret.get(t, ())]
    return bool(rs) and all(r in (f"to_string({el})", f"to_string({el}.symbol)") for r in rs)


def whole(q, t):
    """a string every token of the loop was appended to"""
    t = obj(t, q.g)
    if not (t.op == "call" and re.search(r"String::new$", t.a[0])):
        return False
    ps = [e for e in q.events() if e.kind == "call" and e.args and type(e.args[0]) is Term and obj(e.args[0], q.g) == t and re.search(r"String::(push|push_str|insert\w*|clear|truncate|pop|remove)$", e.name)]
    return bool(ps) and all(e.name.endswith("push_str") and re.fullmatch(r"(deref\()?to_string\(.*\[\*\](\.symbol)?\)\)?", q.c(e.args[1])) for e in ps)
