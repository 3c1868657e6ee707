"""Tokenizing."""
from rules import *
from lin import *
from coll import *
from logic import *
from wire import check_language

META = dict(
    title="Tokenizing keeps the whole text and every token's place",
    statement="A source is split into tokens whose texts in order are the source without its comments and with plain line breaks: every other piece becomes exactly one token with that text, comment signs within quotes stay text, and what follows // is left out up to the end of the line. Every token carries its file, the byte offsets at which its text starts and ends, and the line and column of both, also behind comments over several lines.",
    over=["inputs"],
    forall="all source texts, all placements of comments and quotes",
    why="the tests count the tokens of two short texts; offsets and lines behind comments and quotes are never looked at",
    files=["libs/preprocessor/src/parse/mod.rs", "libs/preprocessor/src/parse/config.pest", "libs/workspace/src/reporting/symbol.rs", "libs/workspace/src/reporting/whitespace.rs"],
    mech=[("parse", "libs/preprocessor/src/parse/mod.rs"), ("Symbol::to_symbol", "libs/preprocessor/src/parse/mod.rs"), ("Display for Symbol", "libs/workspace/src/reporting/symbol.rs"), ("grammar", "libs/preprocessor/src/parse/config.pest")],
    technique="language equality of pieces and tokens over the MIR event graph, ghost counters for offset, line and column, decision tables of the symbol and its text against the grammar",
    note="That the grammar's parser hands out consecutive pieces covering the text is the contract of pest. Columns count bytes from the start of the line.",
)

P = "hemtt_preprocessor::parse::"
SY = "hemtt_workspace::reporting::symbol::Symbol"
OPQ = lambda k: re.search(r"to_symbol|WorkspacePath::|PreprocessorParser|Parser::parse|ParsingFailed", k) is not None
okret = lambda e: e.kind == "ret" and not (isinstance(e.res, Term) and e.res.op == "agg" and e.res.a[1] == "Err")
PIECE = r"Parser::parse\(Rule::file, read_to_string\(arg1\)\?\)\?(?:\.0)?\[\*\]"
CLASS = {"newline": "nl", "COMMENT": "c", "single_quote": "sq", "double_quote": "dq"}


def run(ctx):
    ctx.load(["hemtt_preprocessor", "hemtt_workspace", "hemtt_common"])
    tokens(ctx)
    texts(ctx)


def tokens(ctx):
    p = ctx.p
    f = p.find(P + "parse")
    q = ctx.query(f, opaque=OPQ)
    rules = p.variants(P + "Rule") if P + "Rule" in getattr(p, "adts", {}) else None
    c = q.c

    def rule_of(e):
        """the class of pieces a branch is for"""
        if e.kind == "br" and e.raw == "variant" and isinstance(e.args[1], str) and re.fullmatch(rf"as_rule\({PIECE}\)", c(e.args[0])):
            ks = {CLASS.get(x, "o") for x in e.args[1].split("|")}
            return ks.pop() if len(ks) == 1 else None
        return None

    def slashes(e):
        """is the comment // only"""
        if e.kind == "br" and isinstance(e.args[0], Term):
            k, v = atom(q, e)
            if re.fullmatch(rf"eq\(as_str\({PIECE}\), \"//\"\)|eq\(\"//\", as_str\({PIECE}\)\)", k) and v in (True, False):
                return "//" if v else "/*"
        return None

    def token(e):
        """the parts of a token put into the list"""
        if e.kind != "call" or not re.search(r"Vec::push$", e.name):
            return None
        t = Sizes(q).follow(e.args[1])
        while t.op in ("call", "pure") and len(t.a[1]) == 1 and t.a[0].split("::")[-1] in ("new", "from", "into", "clone"):
            t = Sizes(q).follow(t.a[1][0])
        m = parts(q, t)
        if set(m) != {"symbol", "source"}:
            return None
        return m

    def kind(e):
        m = token(e)
        if m is None:
            return None
        s = c(Sizes(q).follow(m["symbol"]))
        if re.fullmatch(rf"to_symbol\({PIECE}\)", s):
            return "T"
        return "W" if re.fullmatch(rf"Symbol::Word\((?:to_string|to_owned|from|into)?\(?as_str\({PIECE}\)\)?\)", s) else "?"

    def label(e):
        r = rule_of(e)
        if r:
            return r
        return slashes(e) or kind(e)

    ctx.rule("pieces and tokens: exactly one token per piece, but none for what is commented out")
    anyc = alt("//", "/*")
    specs = []
    # the kind of comment may or may not be looked at where it does not matter
    for sk in (seq("c", anyc), "c"):
        for st in (seq("c", "W"), seq("c", "W", anyc), seq("c", anyc, "W")):
            inside = lambda own, other: seq(own, "T", star(alt(seq("o", "T"), seq("nl", "T"), seq(other, "T"), seq(st, "T"))))
            skip = seq("c", "//", star(alt("o", "sq", "dq", sk)))
            item = alt(seq("o", "T"), seq("nl", "T"), seq("c", "/*", "T"), seq(skip, "nl", "T"), seq(inside("dq", "sq"), "dq", "T"), seq(inside("sq", "dq"), "sq", "T"))
            specs.append(seq(star(item), opt(alt(skip, inside("dq", "sq"), inside("sq", "dq")))))
    contained(ctx, "tokens", q, label, specs, okret, f)

    ctx.rule("places: offset, line and column of every token, by ghost counters")
    S = Sizes(q)
    elem = lambda e: e.kind == "br" and e.args[1] == "Some" and isinstance(e.args[0], Term) and NEXT.search(e.args[0].a[0] if e.args[0].op == "call" else "") is not None and re.fullmatch(PIECE, Canon(q).elem(e.args[0].a[1][0])) is not None
    LEN = rf"len\(as_str\({PIECE}\)\)"

    def atoms(l):
        """a linear form with its quantities by name"""
        out = {}
        for k, v in l.items():
            if not v:
                continue
            s = k if isinstance(k, (str, int)) else c(k) if k.op != "phi" else k
            if isinstance(s, str):
                if re.fullmatch(LEN, s):
                    s = "len"
                elif re.fullmatch(rf"len\((?:list\[)?split\(as_str\({PIECE}\), (?:10|\"\\n\")\)(?:\[\*\]\])?\)|count\(split\(as_str\({PIECE}\), (?:10|\"\\n\")\)\)", s):
                    out["breaks"] = out.get("breaks", 0) + v
                    s = 1
                elif re.fullmatch(rf"(?:len|count)\((?:matches|match_indices)\(as_str\({PIECE}\), (?:10|\"\\n\")\)\)|count\(filter\((?:chars|bytes)\(as_str\({PIECE}\)\).*10.*\)\)", s):
                    s = "breaks"
                elif re.fullmatch(rf"len\(.*last.*split\(as_str\({PIECE}\), (?:10|\"\\n\")\).*\)|len\((?:next|next_back)?\(?.*rsplit\w*\(as_str\({PIECE}\), (?:10|\"\\n\")\).*\)", s):
                    s = "tail"
            out[s] = out.get(s, 0) + v
        return {k: v for k, v in out.items() if v}

    def same(a, b):
        return atoms(a) == atoms(b)

    def places(part):
        """(start, end) terms of that part of the positions in the tokens"""
        for n, es in q.g.succ.items():
            for i, (ev, m) in enumerate(es):
                for j, e in enumerate(flat(ev)):
                    k = token(e)
                    if k is None:
                        continue
                    pos = parts(q, k["source"])
                    a, b = (parts(q, pos[x]) if x in pos else {} for x in ("start", "end"))
                    if part == "path":
                        yield n, i, j, e, pos.get("path"), None
                    elif part == "offset":
                        yield n, i, j, e, a.get("0"), b.get("0")
                    else:
                        x = {"line": "0", "col": "1"}[part]
                        yield n, i, j, e, parts(q, a["1"]).get(x) if "1" in a else None, parts(q, b["1"]).get(x) if "1" in b else None

    got = list(places("path"))
    ctx.expect("tokens.made", bool(got), "tokens are made", where=f.norm)
    for n, i, j, e, t, _ in got:
        ctx.expect("path", t is not None and c(Sizes(q).follow(t)) == "arg1", "the token is in this file", where=e.where())

    # a quote is one byte long, and a comment without a line break has none: both may be put either way
    quote = lambda e: rule_of(e) in ("sq", "dq")
    LINES = rf"(?:len\((?:list\[)?split\(as_str\({PIECE}\), (?:10|\"\\n\")\)(?:\[\*\]\])?\)|count\(split\(as_str\({PIECE}\), (?:10|\"\\n\")\)\))"
    BREAKS = rf"(?:\({LINES} Sub 1\)|(?:len|count)\((?:matches|match_indices)\(as_str\({PIECE}\), (?:10|\"\\n\")\)\))"

    def lines(e):
        """does this comment have line breaks"""
        if e.kind != "br" or not isinstance(e.args[0], Term):
            return None
        k, v = atom(q, e)
        if re.fullmatch(rf"\({BREAKS} (?:Gt 0|Ne 0|Ge 1)\)|\({LINES} (?:Gt 1|Ne 1|Ge 2)\)|contains\(as_str\({PIECE}\), (?:10|\"\\n\")\)", k):
            return v if v in (True, False) else None
        if re.fullmatch(rf"\({BREAKS} (?:Eq 0|Lt 1|Le 0)\)|\({LINES} (?:Eq 1|Lt 2|Le 1)\)", k):
            return not v if v in (True, False) else None
        if re.fullmatch(rf"{BREAKS}|{LINES}", k) and v is not None:
            z = "0" if re.fullmatch(BREAKS, k) else "1"
            return False if str(v) == z else True if isinstance(v, tuple) or str(v).isdigit() and int(v) > int(z) else None
        if re.fullmatch(rf"(?:rfind|rsplit_once|find|split_once)\(as_str\({PIECE}\), (?:10|\"\\n\")\)", k):
            return {"Some": True, "None": False}.get(v)
        return None

    def offset(e):
        return Lin({"LEN": 1}) if elem(e) else None

    def line(early):
        def size(e):
            r = rule_of(e)
            if r == "nl":
                return const(1)
            if r == "c" if early else lines(e):
                return Lin({"BREAKS": 1})
            return None
        return size

    def column(sq, dq):
        def size(e):
            r = rule_of(e)
            if r == "nl":
                return "=", Lin()
            if r in ("sq", "dq"):
                return const(1) if {"sq": sq, "dq": dq}[r] else Lin({"LEN": 1})
            if lines(e):
                return "=", Lin({"TAIL": 1})
            return Lin({"LEN": 1}) if r else None
        return size

    B = (True, False)
    for part, sizes, first in (("offset", [offset], Lin()), ("line", [line(x) for x in B], const(1)), ("col", [column(x, y) for x in B for y in B], Lin())):
        S2 = Sizes(q)
        base = S2._lin

        def _lin(t, d, S2=S2, base=base):
            if t.op in ("call", "pure") and t.a[0].split("::")[-1] == "len" and len(t.a[1]) == 1:
                # the last of the lines, by its number
                x = S2.follow(t.a[1][0])
                b, i = (x.a[1][0], x.a[1][1]) if x.op in ("call", "pure") and x.a[0].endswith("::index") else (x.a[0], x.a[1]) if x.op == "idx" else (None, None)
                if isinstance(i, Term) and re.fullmatch(rf"(?:list\[)?split\(as_str\({PIECE}\), (?:10|\"\\n\")\)(?:\[\*\]\])?", c(S2.follow(b))) and S2.lin(i) == Lin({"BREAKS": 1}):
                    return Lin({"TAIL": 1})
            r = base(t, d)
            out = Lin()
            for k, v in r.items():
                x = Lin({k: 1})
                if k != 1 and not (isinstance(k, Term) and k.op == "phi"):
                    a = atoms(x)
                    if a == {"len": 1}:
                        x = Lin({"LEN": 1})
                    elif a == {"tail": 1}:
                        x = Lin({"TAIL": 1})
                    elif set(a) <= {"breaks", 1} and a.get("breaks") == 1:
                        x = Lin({"BREAKS": 1}).plus(const(a.get(1, 0)))
                out = out.plus(x, v)
            return out
        S2._lin = _lin
        got = list(places(part))

        def held(ts):
            """the variables in which it is held"""
            return {k.a[1] for t in ts if t is not None for k in S2.lin(t) if isinstance(k, Term) and k.op == "phi"}

        def at(val, size, n, i, j):
            v = val.get(n, TOP)
            for x in flat(q.g.succ[n][i][0])[:j]:
                d = size(x)
                if isinstance(d, tuple):
                    v = d[1]
                elif d is not None and v is not TOP:
                    v = TOP if d is TOP else v.plus(d)
            return v

        best = None
        for size in sizes:
            wrong = []
            ks = held([b for *_, b in got])
            val, _ = ghost(S2, size, first, lambda ph: ph.a[1] in ks)
            for n, i, j, e, a, b in got:
                v = at(val, size, n, i, j)
                if v is TOP or b is None or not closes(S2, v, b):
                    wrong.append(("end", e, v, b))
            # the start is where it stood when the piece was taken
            stood = {}
            for n, es in q.g.succ.items():
                for i, (ev, m) in enumerate(es):
                    for j, e in enumerate(flat(ev)):
                        if elem(e):
                            v = at(val, size, n, i, j)
                            stood[id(e)] = v if id(e) not in stood or stood[id(e)] == v else TOP
            latch = lambda e: ("=", stood[id(e)]) if id(e) in stood else None
            ks2 = held([a for *_, a, b in got]) or ks
            # what is found with any choice of the variables that hold it is so
            left = {(n, i, j): (e, a, TOP) for n, i, j, e, a, b in got}
            for ks3 in [ks2] + [{k} for k in sorted(ks2, key=str) if len(ks2) > 1]:
                val, _ = ghost(S2, latch, first, lambda ph, ks3=ks3: ph.a[1] in ks3)
                for (n, i, j), (e, a, _) in list(left.items()):
                    v = at(val, latch, n, i, j)
                    left[n, i, j] = e, a, v
                    if v is not TOP and a is not None and closes(S2, v, a):
                        del left[n, i, j]
                if not left:
                    break
            wrong += [("start", e, v, a) for e, a, v in left.values()]
            if best is None or len(wrong) < len(best):
                best = wrong
            if not wrong:
                break
        for x, e, v, t in best or ():
            ctx.bad(f"{part}.{x}", f"the {part} at which a token {x}s is that of its text", witness=[f"stands at {'unknown' if v is TOP else shape(v)}", f"token says {shape(S2.lin(t)) if t is not None else None}"], where=e.where())
        if not best:
            ctx.ok(f"{part}.all", f"{part}: {len(got)} places of tokens")


def shape(l):
    return " + ".join(f"{v}*{k}"[:80] for k, v in l.items()) or "0"


def closes(S, v, t):
    d = v.plus(S.lin(t), -1)
    return same_lin(S, d, frozenset())


def same_lin(S, d, seen):
    """is the difference nothing: equal loop variables of one place count as one"""
    d = {k: x for k, x in d.items() if x}
    if not d:
        return True
    if len(d) == 2 and set(d.values()) == {1, -1}:
        x, y = d
        return isinstance(x, Term) and isinstance(y, Term) and twins(S, x, y, seen)
    return False


def twins(S, x, y, seen):
    if (x, y) in seen:
        return True
    for n, phs in S.g.phin.items():
        if x in phs and y in phs:
            seen = seen | {(x, y), (y, x)}
            return set(phs[x]) == set(phs[y]) and all(same_lin(S, S.lin(phs[x][k]).plus(S.lin(phs[y][k]), -1), seen) for k in phs[x])
    return False


def parts(q, t):
    t = Sizes(q).follow(t)
    if t.op != "agg" or t.a[0] in ("arr", "closure"):
        return {}
    return dict(zip(t.a[2] or [str(i) for i in range(len(t.a[3]))], t.a[3]))


def contained(ctx, key, q, label, specs, accept, f):
    d = q.nfa(label, accept)
    if not ctx.expect(key + ".some", not d.empty(), "a source can be tokenized", where=f.norm):
        return
    d, first = d.dfa(), None
    for s in specs:
        r = compare(d, regex(s))
        if r is None:
            ctx.ok(key, "pieces and tokens")
            return
        if first is None or len(r[0]) > len(first[0]):
            first = r
    w, infirst = first
    ctx.bad(key, "pieces and tokens: " + ("a text is tokenized as …" if infirst else "no text is tokenized as …") + " ".join(map(str, w[-8:])), witness=[f"{x}" for x in w], where=f.norm)


TEXT = {"word": None, "unicode": None, "newline": "\n", "space": " ", "tab": "\t"}


def texts(ctx):
    p = ctx.p
    ctx.rule("the text of every symbol is the text it was read from (to_symbol, then Display), by rule of the grammar")
    g = grammar(ctx)
    if not ctx.expect("grammar", bool(g), "the grammar can be read", where="config.pest"):
        return
    conv = p.find_impl(P + "Parse", SY, "to_symbol") if hasattr(p, "find_impl") else None
    if conv is None:
        conv = next(b for b in p.fns.values() if b.norm.endswith("to_symbol"))
    disp = p.find_impl("core::fmt::Display", SY, "fmt")
    dispw = p.find_impl("core::fmt::Display", "hemtt_workspace::reporting::whitespace::Whitespace", "fmt")
    q0 = ctx.query(conv)
    d0 = ctx.query(disp)
    w0 = ctx.query(dispw)
    rules = p.variants(P + "Rule")
    for r in rules:
        if r in ("file",):
            continue
        q = settle(q0, [(r"as_rule\(arg1\)", [r])])
        res = {q.c(Sizes(q).follow(e.res)) for e in q.rets()}
        ctx.expect(f"symbol.{r}", len(res) == 1, f"{r} has one symbol", where=conv.norm, detail=str(res)[:200])
        if len(res) != 1:
            continue
        s = res.pop()
        m = re.fullmatch(r"Symbol::(\w+)(?:\((.*)\))?", s)
        if r == "WHITESPACE":
            ok = re.fullmatch(r"to_symbol\((?:(?:next|last|peek)\(into_inner\(arg1\)\)\??|into_inner\(arg1\)\[\*\])\)", s) is not None
            ctx.expect("symbol.WHITESPACE.inner", ok, "white space is what is in it", where=conv.norm, detail=s[:200])
            continue
        if not ctx.expect(f"symbol.{r}.variant", m is not None, f"the symbol of {r} is made in place", where=conv.norm, detail=s[:200]):
            continue
        var, arg = m.groups()
        lit = g.get(r)
        if var == "Whitespace":
            x = re.fullmatch(r"Whitespace::(\w+)", arg or "")
            out = shown(w0, x.group(1)) if x else None
            ctx.expect(f"text.{r}", out is not None and out == TEXT.get(r), f"{r} is printed as it was read", where=conv.norm, detail=f"{s} -> {out!r}")
            outd = shown(d0, "Whitespace")
            ctx.expect(f"text.{r}.passed", outd is not None and re.fullmatch(r"«arg1\.0(@Whitespace)?»", outd) is not None, "white space is printed as itself", where=disp.norm, detail=str(outd))
            continue
        out = shown(d0, var)
        if r == "EOI" or r == "COMMENT":
            ctx.expect(f"text.{r}", out == "", f"{r} has no text", where=disp.norm, detail=f"{s} -> {out!r}")
            continue
        if r == "newline":
            ctx.expect(f"text.{r}", out == "\n", "a line break is printed as one", where=disp.norm, detail=f"{s} -> {out!r}")
            continue
        if lit is not None:
            ctx.expect(f"text.{r}", out == lit and not arg, f"{r} is printed as {lit}", where=disp.norm, detail=f"{s} -> {out!r}")
            continue
        carried_ = out is not None and re.fullmatch(r"«arg1\.0(@\w+)?»", out) is not None
        full = arg is not None and (re.fullmatch(r"(?:(?:to_string|to_owned|into|from)\()*as_str\(arg1\)\)*", arg) is not None or var == "Alpha" and re.fullmatch(r"(?:next|last)\(chars\(as_str\(arg1\)\)\)\??|chars\(as_str\(arg1\)\)\[\*\]", arg) is not None or var == "Digit" and re.fullmatch(r"(?:<impl str>::)?parse\(as_str\(arg1\)\)\?", arg) is not None)
        ctx.expect(f"text.{r}", carried_ and full, f"{r} is printed as it was read", where=conv.norm, detail=f"{s} -> {out!r}")
        if var in ("Alpha", "Digit"):
            ctx.expect(f"grammar.{r}", g.get("=" + r) in ("LETTER", "ASCII_DIGIT", "ASCII_ALPHA", "ALPHABETIC"), f"{r} is one character", where="config.pest", detail=str(g.get("=" + r)))
    ctx.expect("grammar.COMMENT", {re.sub(r"\s", "", x).strip("()") for x in re.split(r"\|", g.get("=COMMENT", ""))} == {'"/*"~(!"*/"~ANY)*~"*/"', '"//"'}, "comments are /* … */ and //", where="config.pest", detail=str(g.get("=COMMENT")))
    ctx.expect("grammar.file", g.get("~file") == "_", "the pieces are handed out one by one", where="config.pest", detail=str(g.get("~file")))
    ctx.expect("grammar.newline", g.get("=newline") == "NEWLINE", "line breaks are those of the files", where="config.pest", detail=str(g.get("=newline")))
    ctx.expect("grammar.WHITESPACE", {x.strip() for x in g.get("=WHITESPACE", "").split("|")} == {"space", "tab"} and g.get("space") == " " and g.get("tab") == "\t", "white space is kept as space or tab", where="config.pest", detail=str(g.get("=WHITESPACE")))
    for name, lit in (("escape", "\\"), ("double_quote", '"'), ("single_quote", "'"), ("join", "##"), ("directive", "#"), ("comma", ","), ("left_parentheses", "("), ("right_parentheses", ")"), ("left_angle", "<"), ("right_angle", ">"), ("equals", "="), ("underscore", "_")):
        ctx.expect(f"grammar.{name}", g.get(name) == lit, f"{name} is {lit}", where="config.pest", detail=str(g.get(name)))
    for e in ctx.query(p.find_impl("core::fmt::Display", "hemtt_workspace::reporting::token::Token", "fmt"), opaque=lambda k: k == disp.norm).events():
        pass
    b = p.find("hemtt_workspace::reporting::token::Token::to_source")
    q = ctx.query(b)
    rs = {q.c(Sizes(q).follow(e.res)) for e in q.rets()}
    ctx.expect("to_source", all(re.fullmatch(r"to_string\(arg1(\.symbol)?\)", x) for x in rs) and bool(rs), "the source text of a token is its symbol's", where=b.norm, detail=str(rs)[:200])


def shown(q0, var):
    """what is printed for that variant, as text"""
    q = settle(q0, [(r"arg1", [var])])
    outs = set()
    for e in q.events():
        if e.kind == "call" and re.search(r"Formatter<?.*>?::(write_fmt|write_str|pad)$|Display::fmt$|Write::(write_str|write_char|write_fmt)$", e.name):
            a = [x for x in e.args if "Formatter" not in str(x)]
            t = e.args[1] if re.search(r"write_|pad", e.name) else e.args[0]
            if e.name.endswith("write_fmt"):
                t = T("pure", "alloc::fmt::format", (t,))
            outs.add(text(q, t))
    return outs.pop() if len(outs) == 1 else None


def grammar(ctx):
    """rule -> literal, and "=rule" -> its body"""
    import os
    f = os.path.join(os.environ.get("HEMTT_SA_REPO", "/repo"), "libs/preprocessor/src/parse/config.pest")
    try:
        s = open(f).read()
    except OSError:
        return None
    s = re.sub(r"^\s*//.*$", "", s, flags=re.M)
    out = {}
    for m in re.finditer(r"^(\w+)\s*=\s*([_@$!]?)\{((?:\"(?:\\.|[^\"])*\"|[^\"}])*)\}", s, re.M):
        n, b = m.group(1), m.group(3).strip()
        out["~" + n] = m.group(2)
        out["=" + n] = b
        l = re.fullmatch(r'"((?:\\.|[^"])*)"', b)
        if l:
            out[n] = l.group(1).encode().decode("unicode_escape")
    return out
