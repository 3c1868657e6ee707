"""The preprocessed text and its map back to the sources."""
import itertools
from rules import *
from lin import *
from coll import *
from logic import *
from R06 import base_field

META = dict(
    title="The preprocessed text is the tokens' text and maps back to its sources",
    statement="The preprocessed text is the text of the output tokens in order, without ## outside quotes and comments. For every token and every macro use with a text there is a mapping that starts at the number of characters, the line and the column before it, reaches to the end of its text, for a macro use exactly, and names the token, its position and the file it is in. Looking up an offset gives the last mapping recorded over it, and extracting a range of characters gives exactly these characters, also when some of them take several bytes.",
    over=["inputs"],
    forall="all sequences and nestings of output tokens, all texts, all offsets and ranges",
    why="the tests print a few mappings of small ASCII sources; a shifted offset or a wrong file only shows in a later diagnostic",
    files=["libs/workspace/src/reporting/processed.rs"],
    mech=[("append_token", "libs/workspace/src/reporting/processed.rs"), ("append_output", "libs/workspace/src/reporting/processed.rs"), ("Processed::{mapping,extract,extract_from,get_byte_offset}", "libs/workspace/src/reporting/processed.rs")],
    technique="case analysis per kind of token over MIR event graphs, linear state updates (ghost character counts), concrete evaluation of the range tests",
    note="A mapping of a single token may reach beyond its text. Quote tracking is decided as a stack that a quote of the innermost kind pops and any other pushes.",
)

K = "hemtt_workspace::reporting::processed::"
S_ = r"(?:to_string|to_source)\(arg3(?:\.symbol)?\)"
okret = lambda e: e.kind == "ret" and not (isinstance(e.res, Term) and e.res.op == "agg" and e.res.a[1] == "Err")


def lins(q, t, d=0):
    """the linear forms a number can have, with atoms named after the state at the start"""
    S = Sizes(q)
    if d > 30:
        return None
    t = S.follow(t)
    while t.op == "cast":
        t = S.follow(t.a[1])
    if t.op == "fld" and t.a[1] == "0" and t.a[0].op == "bin":
        t = t.a[0]
    if t.op == "int":
        return [Lin({1: t.a[0]}) if t.a[0] else Lin()]
    if t.op == "bin" and t.a[0].replace("WithOverflow", "").replace("Unchecked", "") in ("Add", "Sub"):
        a, b = lins(q, t.a[1], d + 1), lins(q, t.a[2], d + 1)
        if a is None or b is None:
            return None
        k = 1 if "Add" in t.a[0] else -1
        return [x.plus(y, k) for x in a for y in b]
    if t.op == "phi":
        out = []
        for v in S.edges(t).values():
            if v is not t:
                r = lins(q, v, d + 1)
                if r is None:
                    return None
                out += r
        return out
    if t.op == "fld":
        rs = reads(q, t.a[0], t.a[1])
        if rs and rs != {t}:
            out = []
            for r in rs:
                x = lins(q, r, d + 1) if not (r.op == "fld" and r.a[:2] == t.a[:2]) else [Lin({q.c(r): 1})]
                if x is None:
                    return None
                out += x
            return out
    return [Lin({q.c(t): 1})]


def one(q, t):
    rs = lins(q, t)
    ks = {r.key(): r for r in rs or ()}
    return next(iter(ks.values())) if len(ks) == 1 else None


def fields(q, t):
    """the parts of a value by name or position"""
    t = Sizes(q).follow(t)
    if t.op != "agg" or t.a[0] in ("arr", "closure"):
        return {}
    return dict(zip(t.a[2] or [str(i) for i in range(len(t.a[3]))], t.a[3]))


def linecol(q, t):
    """(offset, line, column) as linear forms"""
    f = fields(q, t)
    if "0" not in f or "1" not in f:
        return None
    p = fields(q, f["1"])
    if "0" not in p or "1" not in p:
        return None
    return [one(q, f["0"]), one(q, p["0"]), one(q, p["1"])]


def mapping(ctx, key, q, e, where):
    """a mapping pushed: (start, end, fields) or None"""
    m = fields(q, e.args[1])
    pr = fields(q, m["processed"]) if "processed" in m else {}
    if not {"source", "original", "token", "was_macro"} <= set(m) or not {"0", "1"} <= set(pr):
        ctx.expect(key + ".shape", False, "the mapping is made in place", where=e.where(), detail=q.c(e.args[1])[:300])
        return None
    return linecol(q, pr["0"]), linecol(q, pr["1"]), m


def places(q, name):
    return lambda e: e.kind == "call" and bool(e.args) and re.search(r"::(push|push_str|extend|insert|insert_str|write_str|write_char|write_fmt|append|clear|pop|truncate)$", e.name) is not None and base_field(q, e.args[0]) == name


def once(ctx, key, q, ev, msg, f):
    tr = q.path_avoiding(ev, okret)
    tw = q.path_avoiding(lambda e: False, ev, start=ev)
    ctx.expect(key, any(ev(e) for e in q.events()) and tr is None and tw is None, msg, tr or tw or (), f.norm)


def source_of(ctx, key, q0, f, want, P, who):
    """the index of the token's file among the sources"""
    POS = r"position\((?:mut\()?arg1\)?\.sources, closure=>eq\((?:as_str\()?(?:mut\()?arg1\)?\.sources\[\*\]\.0(?:\.data\.path)?\)?, (?:as_str\()?" + P + r"(?:\.data\.path)?\)?\)\)"
    # the file is known already, or it is added at the end
    for n in ("Some", "None"):
        q = settle(q0, want + [(POS, [n])])
        adds = [e for e in q.events(places(q, "sources"))]
        if n == "Some":
            ctx.expect(key + ".known", not adds, "a file that is known is not added again", where=adds[0].where() if adds else f.norm)
        else:
            ok = bool(adds) and all(e.name.endswith("Vec::push") and (m := fields(q, e.args[1])) and re.fullmatch(P, q.c(m["0"])) and re.fullmatch(r".*read_to_string\(" + P + r".*", q.c(m["1"])) for e in adds)
            ctx.expect(key + ".added", ok, "a new file is added with its content", where=f.norm, detail=str([q.c(e.args[1]) for e in adds])[:300])
        for e in q.events(places(q, "mappings")):
            r = mapping(ctx, key, q, e, f)
            if r is None:
                continue
            s = r[2]["source"]
            if n == "Some":
                ok = re.fullmatch(POS + r"\?", q.c(Sizes(q).follow(s))) is not None
            else:
                x = one(q, s)
                at = [(k, v) for k, v in (x or {}).items() if k != 1]
                grown = lambda k: re.fullmatch(r"len\((?:append|mut)\(.*sources.*\)\)", k) is not None
                same = lambda k: re.fullmatch(r"len\((?:mut\()?arg1\)?\.sources\)", k) is not None
                ok = x is not None and len(at) == 1 and at[0][1] == 1 and isinstance(at[0][0], str) and (grown(at[0][0]) and x.get(1) == -1 or same(at[0][0]) and 1 not in x)
            ctx.expect(f"{key}.source.{n}", ok, f"the mapping of {who} names its file", where=e.where(), detail=q.c(Sizes(q).follow(s))[:300])
    return POS


def token(ctx):
    p = ctx.p
    f = p.find(K + "append_token")
    q0 = ctx.query(f)
    PATH = r"arg3\.source\.path"
    POS = source_of(ctx, "token", q0, f, [(r"arg3\.symbol", ["Word"])], PATH, "a token")
    known = [(POS, ["Some"])]
    ctx.rule("per kind of token: what is put into the text, and the mapping and counters that go with it")
    st = r"arg2"
    for sym in p.variants("hemtt_workspace::reporting::symbol::Symbol"):
        for outside in (True, False) if sym == "Join" else (None,):
            empty = sym in ("Comment", "Eoi")
            want = known + [(r"arg3\.symbol", [sym])]
            want += [(rf"is_empty\({S_}\)|eq\({S_}, \"\"\)|\(len\({S_}\) Eq 0\)", [empty]), (rf"eq\({S_}, \"##\"\)", [sym == "Join"])]
            if outside is not None:
                want += [(rf"is_empty\({st}\)|\(len\({st}\) Eq 0\)", [outside]), (rf"last\({st}\)|first\({st}\)", ["None" if outside else "Some"])]
            q = settle(q0, want)
            out, maps = places(q, "output"), places(q, "mappings")
            key = sym + {True: ".bare", False: ".quoted", None: ""}[outside]
            if empty or outside:
                bad = [e for e in q.events() if out(e) or maps(e)]
                ctx.expect(key, not bad and any(okret(e) for e in q.events()), f"{sym} leaves nothing behind", where=bad[0].where() if bad else f.norm)
                for e in q.events():
                    if okret(e) and e.raw and 1 in e.raw:
                        for n in ("total", "line", "col"):
                            v = {x.key() for r in reads(q, e.raw[1], n) for x in lins(q, r) or [Lin()]}
                            ctx.expect(f"{key}.{n}", v == {Lin({f"arg1.{n}": 1}).key()}, f"{sym} does not move the {n}", where=e.where(), detail=str(v)[:200])
                continue
            once(ctx, key + ".text", q, out, f"{sym} is put into the text once", f)
            once(ctx, key + ".mapping", q, maps, f"{sym} gets one mapping", f)
            nl = sym == "Newline"
            for e in q.events(out):
                t = text(q, e.args[1])
                ok = re.fullmatch("«" + S_ + r"»|«arg3(\.symbol)?»", t) is not None or nl and t == "\n"
                ctx.expect(key + ".written", ok and re.search(r"::(push|push_str)$", e.name) is not None, f"the text of {sym} is put at the end", where=e.where(), detail=f"{e.name}: {t}"[:200])
            n = rf"count\(chars\({S_}\)\)"
            width = lambda d: d is not None and (nl and dict(d) == {1: 1} or len(d) == 1 and re.fullmatch(n, str(next(iter(d)))) is not None and next(iter(d.values())) == 1)
            past = lambda d: d is not None and (nl and dict(d) == {1: 1} or len(d) == 1 and re.fullmatch(n, str(next(iter(d)))) is not None and next(iter(d.values())) >= 1)
            base = {x: Lin({f"arg1.{x}": 1}) for x in ("total", "line", "col")}
            diff = lambda a, b: None if a is None else a.plus(b, -1)
            for e in q.events(maps):
                r = mapping(ctx, key, q, e, f)
                if r is None:
                    continue
                s, t, m = r
                for i, x in enumerate(("total", "line", "col")):
                    ctx.expect(f"{key}.start.{x}", s is not None and s[i] is not None and dict(s[i]) == dict(base[x]), f"the mapping of {sym} starts where its text does ({x})", where=e.where(), detail=str(s)[:300])
                ctx.expect(f"{key}.end", t is not None and past(diff(t[0], base["total"])), f"the mapping of {sym} reaches to the end of its text", where=e.where(), detail=str(t)[:300])
                ctx.expect(f"{key}.end.line", t is not None and t[1] is not None and dict(t[1].plus(base["line"], -1)) == ({1: 1} if nl else {}), f"the mapping of {sym} ends on the right line", where=e.where(), detail=str(t)[:300])
                ctx.expect(f"{key}.end.col", t is not None and t[2] is not None and (dict(t[2]) == {} if nl else past(diff(t[2], base["col"]))), f"the mapping of {sym} ends at the right column", where=e.where(), detail=str(t)[:300])
                for x, v in (("original", "arg3.source"), ("token", "arg3"), ("was_macro", "false")):
                    ctx.expect(f"{key}.{x}", q.c(Sizes(q).follow(m[x])) == v, f"the mapping of {sym} has its own {x}", where=e.where(), detail=q.c(m[x])[:200])
            for e in q.events():
                if not okret(e):
                    continue
                post = {x: [y for r in reads(q, e.raw[1], x) for y in lins(q, r) or [None]] for x in base} if e.raw and 1 in e.raw else {}
                after = {x: (v[0] if len({y.key() if y is not None else None for y in v}) == 1 else None) for x, v in post.items()}
                ok = width(diff(after.get("total"), base["total"]))
                ctx.expect(key + ".total", ok, f"the number of characters grows by those of {sym}", where=e.where(), detail=str(post.get("total"))[:200])
                ok = after.get("line") is not None and dict(after["line"].plus(base["line"], -1)) == ({1: 1} if nl else {})
                ctx.expect(key + ".line", ok, f"the line {'grows by one' if nl else 'stays'} with {sym}", where=e.where(), detail=str(post.get("line"))[:200])
                ok = after.get("col") is not None and (dict(after["col"]) == {} if nl else width(diff(after["col"], base["col"])))
                ctx.expect(key + ".col", ok, f"the column {'starts over' if nl else 'grows by the characters'} with {sym}", where=e.where(), detail=str(post.get("col"))[:200])
            if nl:
                put = lambda e: e.kind == "call" and e.name.endswith("::insert") and "line_offsets" in q.c(e.args[0])
                once(ctx, "line_offsets", q, put, "the offset of the next line is remembered", f)
                for e in q.events(put):
                    x, y = one(q, e.args[1]), one(q, e.args[2])
                    ok = re.search(r"(entry|get_mut)\(.*line_offsets, " + PATH + r"\)", q.c(e.args[0])) is not None and x is not None and dict(x) == {"arg3.source.end.1.0": 1, 1: -1} and y is not None and dict(y) == {"arg3.source.end.0": 1}
                    ctx.expect("line_offsets.value", ok, "the offset of the next line in the token's file is where the line break ends", where=e.where(), detail=f"{q.c(e.args[0])} {x} {y}"[:300])
            else:
                bad = [e for e in q.events() if e.kind == "call" and e.name.endswith("::insert") and "line_offsets" in q.c(e.args[0])]
                ctx.expect(key + ".no-line", not bad, f"{sym} does not start a line", where=bad[0].where() if bad else f.norm)
    ctx.rule("the stack of open quotes")
    for sym, ch in (("DoubleQuote", 34), ("SingleQuote", 39)):
        for top in (None, "same", "other"):
            want = known + [(r"arg3\.symbol", [sym]), (r"is_empty\(arg2\)|\(len\(arg2\) Eq 0\)", [top is None]), (r"last\(arg2\)", ["None" if top is None else "Some"]), (rf"eq\(last\(arg2\)\??, (?:Option::Some\()?{ch}\)?\)|\(last\(arg2\)\? Eq {ch}\)", [top == "same"]), (rf"eq\(last\(arg2\)\??, (?:Option::Some\()?{73 - ch}\)?\)|\(last\(arg2\)\? Eq {73 - ch}\)", [top == "other"]), (r"\(arg3\.source\.start\.0 Ne arg3\.source\.end\.0\)", [True]), (r"\(arg3\.source\.start\.0 Eq arg3\.source\.end\.0\)", [False])]
            q = settle(q0, want, dead=(lambda q: Concrete(q, {r"last\(arg2\)\?": ch if top == "same" else 73 - ch}).dead) if top else None)
            move = lambda e: e.kind == "call" and e.args and re.search(r"Vec::(push|pop|clear|truncate|insert|remove)$", e.name) is not None and q.c(obj(e.args[0], q.g)) == "arg2"
            once(ctx, f"quotes.{sym}.{top}", q, move, "a quote changes the stack of open quotes once", f)
            for e in q.events(move):
                ok = e.name.endswith("Vec::pop") if top == "same" else e.name.endswith("Vec::push") and q.c(e.args[1]) == str(ch)
                ctx.expect(f"quotes.{sym}.{top}.how", ok, f"with {top or 'no'} quote open, {sym} {'closes it' if top == 'same' else 'opens one'}", where=e.where(), detail=e.name)
    q = settle(q0, known + [(r"arg3\.symbol", [s for s in p.variants("hemtt_workspace::reporting::symbol::Symbol") if "Quote" not in s])])
    bad = [e for e in q.events() if e.kind == "call" and e.args and re.search(r"Vec::(push|pop|clear|truncate|insert|remove)$", e.name) and q.c(obj(e.args[0], q.g)) == "arg2"]
    ctx.expect("quotes.others", not bad, "only quotes change the stack of open quotes", where=bad[0].where() if bad else f.norm)


def output(ctx):
    p = ctx.p
    f = p.find(K + "append_output")
    q0 = ctx.query(f, opaque=lambda k: k in (K + "append_token", K + "append_output"))
    ctx.rule("every output is appended in order, a macro use gets a mapping over all of its expansion")
    for v, call, arg in (("Direct", "append_token", r"arg3\[\*\]\.0(@Direct)?"), ("Macro", "append_output", r"arg3\[\*\]\.1(@Macro)?")):
        q = settle(q0, [(r"arg3\[\*\]", [v])])
        hs = [(k, h) for k, h, el, ev in loop_heads(q) if el == "arg3[*]" and k[0] == "n"]
        if not ctx.expect(f"{v}.loop", len(hs) == 1, "the outputs are gone through in order", where=f.norm, detail=str([x[2] for x in loop_heads(q)])):
            continue
        k, h = hs[0]
        body = body_of(q, k, h)
        use = lambda e: e.kind == "call" and e.name.endswith(call)
        end = lambda e: h(e) or okret(e)
        tr = q.path_avoiding(use, end, start=body)
        again = q.path_avoiding(h, use, start=use)
        ctx.expect(f"{v}.once", tr is None and again is None and any(use(e) for e in q.events()), f"a {v.lower()} output is appended once", tr or again or (), f.norm)
        tr = q.path_avoiding(h, okret, start=body)
        ctx.expect(f"{v}.on", tr is None, "the ones after it are appended as well", tr or (), f.norm)
        for e in q.events(use):
            o = [q.c(obj(a, q.g)) for a in e.args[:2]]
            ctx.expect(f"{v}.what", o == ["arg1", "arg2"] and re.fullmatch(arg, q.c(e.args[2])) is not None, f"its own {'token' if v == 'Direct' else 'expansion'} is appended, to the same text", where=e.where(), detail=str([q.c(a)[:100] for a in e.args])[:300])
        other = [e for e in q.events() if e.kind == "call" and e.name.endswith(("append_token", "append_output")) and not use(e)]
        ctx.expect(f"{v}.only", not other, "nothing else is appended", where=other[0].where() if other else f.norm)
        direct = [e for e in q.events() if places(q, "output")(e)]
        ctx.expect(f"{v}.text", not direct, "the text is put together from tokens only", where=direct[0].where() if direct else f.norm)
        if v == "Direct":
            bad = [e for e in q.events(places(q, "mappings"))]
            ctx.expect("Direct.mapping", not bad, "a token has the mapping made for it", where=bad[0].where() if bad else f.norm)
            continue
        maps = places(q, "mappings")
        tr = q.path_avoiding(maps, end, start=use)
        tw = q.path_avoiding(lambda e: h(e), maps, start=maps)
        early = q.path_avoiding(use, maps, start=body)
        ctx.expect("Macro.mapping", tr is None and tw is None and early is None, "a macro use gets one mapping, after those of its expansion", tr or tw or early or (), f.norm)
        for e in q.events(maps):
            r = mapping(ctx, "Macro", q, e, f)
            if r is None:
                continue
            s, t, m = r
            calls = [x for x in q.events(use)]
            pr = fields(q, m["processed"])
            for i, x, where_ in ((0, "start", "before"), (1, "end", "behind")):
                lc = fields(q, pr[str(i)])
                pt = fields(q, lc["1"]) if "1" in lc else {}
                for part, val in (("total", lc.get("0")), ("line", pt.get("0")), ("col", pt.get("1"))):
                    ok = val is not None
                    if ok:
                        val = Sizes(q).follow(val)
                        got = reads(q, val.a[0], val.a[1]) if val.op == "fld" else {val}
                        exp = set()
                        for c in calls:
                            b = c.args[0] if i == 0 else T("out", c.res, 0)
                            exp |= reads(q, b, part)
                        ok = bool(got) and got == exp
                    ctx.expect(f"Macro.{x}.{part}", ok, f"the mapping of a macro use has the {part} {where_} its expansion", where=e.where(), detail=q.c(val)[:200] if val is not None else "")
            T_ = r"arg3\[\*\]\.0(@Macro)?"
            for x, rx in (("original", T_ + r"\.source"), ("token", T_), ("was_macro", "true")):
                ctx.expect(f"Macro.{x}", re.fullmatch(rx, q.c(Sizes(q).follow(m[x]))) is not None, f"the mapping of a macro use has its own {x}", where=e.where(), detail=q.c(m[x])[:200])
    source_of(ctx, "macro", q0, f, [(r"arg3\[\*\]", ["Macro"])], r"arg3\[\*\]\.0(?:@Macro)?\.source\.path", "a macro use")

    f = p.find(K + "Processed::new")
    q = ctx.query(f, opaque=lambda k: k in (K + "append_token", K + "append_output"))
    use = lambda e: e.kind == "call" and e.name.endswith("append_output")
    once(ctx, "new.once", q, use, "all outputs are appended", f)
    for e in q.events(use):
        fs = fields(q, obj(e.args[0], q.g))
        z = {n: q.c(fs[n]) if n in fs else None for n in ("line", "col", "total", "output", "sources", "mappings")}
        ctx.expect("new.empty", z == {"line": "0", "col": "0", "total": "0", "output": '""', "sources": "list[]", "mappings": "list[]"}, "the text starts empty", where=e.where(), detail=str(z))
        ctx.expect("new.stack", q.c(e.args[1]) == "list[]", "no quote is open at the start", where=e.where(), detail=q.c(e.args[1]))
        ctx.expect("new.outputs", q.c(e.args[2]) == "arg1", "all outputs are appended", where=e.where(), detail=q.c(e.args[2]))
    for e in q.rets():
        if okret(e):
            ctx.expect("new.result", any(obj(e.res.a[3][0], q.g) == obj(c.args[0], q.g) for c in q.events(use)), "the result is what was appended to", where=e.where())
    ctx.rule("the parts of the result")
    for fn, field, arg in (("as_str", "output", None), ("raw_mappings", "mappings", None), ("sources", "sources", None), ("warnings", "warnings", None), ("macros", "macros", None), ("no_rapify", "no_rapify", None)):
        b = p.fns.get(K + "Processed::" + fn) or next((x for x in p.fns.values() if x.norm == K + "Processed::" + fn), None)
        if b is None:
            continue
        q = ctx.query(b)
        rs = {q.c(Sizes(q).follow(e.res)) for e in q.rets()}
        ctx.expect(f"part.{fn}", all(re.fullmatch(rf"(?:(?:clone|to_vec|deref|as_str|as_slice)\()*arg1\.{field}\)*", r) for r in rs) and bool(rs), f"{fn} gives the {field}", where=b.norm, detail=str(rs)[:200])
    for fn, field in (("source", "source"), ("processed_start", "processed.0"), ("processed_end", "processed.1"), ("original", "original"), ("original_start", "original.start.0"), ("original_end", "original.end.0"), ("token", "token"), ("was_macro", "was_macro")):
        b = next((x for x in p.fns.values() if x.norm == K + "Mapping::" + fn), None)
        if b is None:
            continue
        q = ctx.query(b)
        rs = {q.c(Sizes(q).follow(e.res)) for e in q.rets()}
        ctx.expect(f"mapping.{fn}", rs == {f"arg1.{field}"}, f"{fn} gives the {field}", where=b.norm, detail=str(rs)[:200])


def lookups(ctx):
    p = ctx.p
    ctx.rule("an offset is looked up among the mappings that start at or before it and end behind it")
    f = p.find(K + "Processed::mapping")
    fs = p.find(K + "Processed::mappings")
    A, B = r"(rev:)?arg1\.mappings\[\*\]\.processed\.0\.0", r"(rev:)?arg1\.mappings\[\*\]\.processed\.1\.0"
    for g, how in ((fs, "all"), (f, "last")):
        q0 = ctx.query(g)
        for s, e_, o in ((2, 5, 1), (2, 5, 2), (2, 5, 4), (2, 5, 5), (2, 5, 6), (2, 2, 2)):
            q = at(q0, {A: s, B: e_, "arg2": o})
            inside = s <= o < e_
            C = Concrete(q, {A: s, B: e_, "arg2": o})
            flt = [t for t in q.g.cbret if t.op in ("call", "pure") and t.a[1] and re.search(r"::(filter|find|rfind|filter_map|position|rposition|retain)$", t.a[0]) and re.fullmatch(r"(rev:)?arg1\.mappings\[\*\]", Canon(q).elem(t.a[1][0]))]
            if flt:
                ok = all({C.val(r) for r in q.g.cbret[t]} == {int(inside)} for t in flt if not t.a[0].endswith("filter_map"))
            else:
                push = [e for e in q.events() if e.kind == "call" and e.name.endswith("::push")]
                some = [e for e in q.events() if e.kind == "ret" and q.c(e.res).startswith("Option::Some")]
                ok = (bool(push) if how == "all" else bool(push) or bool(some)) is inside or how == "last" and any(True for _ in loop_heads(q))
            ctx.expect(f"{how}.{s}.{e_}.{o}", ok, f"offset {o} is {'' if inside else 'not '}covered by a mapping from {s} to {e_}", where=g.norm)
        if how == "last":
            q = ctx.query(f, opaque=lambda k: k == fs.norm)
            rs = {q.c(Sizes(q).follow(e.res)) for e in q.rets()}
            M = r"mappings\(arg1, arg2\)"
            ok = all(re.fullmatch(rf"Option::None|(?:Option::Some\()?(?:copied\(|cloned\()?(?:last\({M}\)|pop\({M}\)|next\(rev\({M}\)\)|next_back\({M}\)|(?:find|next)\(.*rev\(.*arg1\.mappings.*\)|rfind\(arg1\.mappings.*\)|last\(filter\(arg1\.mappings.*\)|next_back\(filter\(arg1\.mappings.*\))\)?\??\)?", r) for r in rs) and any("Option::None" != r for r in rs)
            ctx.expect("last.which", ok, "the last of them is given", where=f.norm, detail=str(rs)[:300])

    ctx.rule("character positions are turned into byte positions")
    f = p.find(K + "Processed::get_byte_offset")
    q = ctx.query(f)
    for e in q.rets():
        ctx.expect("byte_offset", bytes_before(q, e.res, "arg2"), "the byte offset is the length of the characters before", where=e.where(), detail=q.c(e.res)[:300])
    for fn, lo, hi in (("extract", "arg2.start", "arg2.end"), ("extract_from", "arg2.start", None)):
        f = p.find(K + "Processed::" + fn)
        q = ctx.query(f)
        whole = []
        for e in q.rets():
            ts = [e.res]
            while ts:
                t = Sizes(q).follow(ts.pop())
                if t.op == "phi":
                    ts += [v for v in Sizes(q).edges(t).values() if v is not t]
                    continue
                if t.op in ("call", "pure") and len(t.a[1]) == 1 and t.a[0].split("::")[-1] in ("from", "into", "to_string", "to_owned", "clone"):
                    ts.append(t.a[1][0])
                    continue
                if t.op == "str" and t.a[0] == "":
                    # only for an empty range
                    if hi:
                        bad = []
                        for n in (2, 3):
                            qq = at(ctx.query(f), {re.escape(lo): 1, re.escape(hi): n})
                            bad += [x for x in qq.rets() if qq.c(Sizes(qq).follow(x.res)) in ('""', 'from("")')]
                        ctx.expect(f"{fn}.empty", not bad, "only an empty range gives an empty text", where=e.where())
                    else:
                        ctx.expect(f"{fn}.empty", False, "the text is not empty", where=e.where())
                    continue
                whole.append(t)
        ok = bool(whole)
        for t in whole:
            ok = ok and sliced(q, t, lo, hi)
        ctx.expect(fn, ok, f"the characters from {lo}{' to ' + hi if hi else ' on'} are given", where=f.norm, detail=str([q.c(t) for t in whole])[:300])


def sliced(q, t, lo, hi):
    m = re.fullmatch(r"(?:collect|from_iter)\((.*)\)", q.c(t))
    if m:
        d = re.escape(f"({hi} Sub {lo})") if hi else None
        forms = [rf"skip\(chars\(arg1\.output\), {re.escape(lo)}\)"] if not hi else [rf"take\(skip\(chars\(arg1\.output\), {re.escape(lo)}\), (?:{d}|saturating_sub\({re.escape(hi)}, {re.escape(lo)}\)|len\(arg2\))\)", rf"skip\(take\(chars\(arg1\.output\), {re.escape(hi)}\), {re.escape(lo)}\)"]
        return any(re.fullmatch(x, m.group(1)) for x in forms)
    # a slice of the text
    args = t.a[1] if t.op in ("call", "pure") else t.a[:2] if t.op == "idx" else ()
    if (t.op == "idx" or t.op in ("call", "pure") and t.a[0].split("::")[-1] in ("index", "get")) and len(args) == 2:
        if q.c(args[0]) not in ("arg1.output", "as_str(arg1.output)"):
            return False
        r = fields(q, args[1])
        return bytes_before(q, r["start"], lo) if hi is None and set(r) == {"start"} else set(r) == {"start", "end"} and hi is not None and bytes_before(q, r["start"], lo) and bytes_before(q, r["end"], hi)
    return False


def bytes_before(q, t, bound):
    """the number of bytes of the first `bound` characters of the text"""
    S = Sizes(q)
    t = S.follow(t)
    while t.op == "cast" or t.op in ("call", "pure") and t.a[0].split("::")[-1] in ("try_from", "try_into", "unwrap", "into", "from") and len(t.a[1]) == 1:
        t = S.follow(t.a[1] if t.op == "cast" else t.a[1][0])
    s = q.c(t)
    b = re.escape(bound)
    W = r"(?:fn:.*len_utf8|closure=>len_utf8\(chars\(arg1\.output\)\[\*\]\))"
    if re.fullmatch(rf"sum\(map\(take\(chars\(arg1\.output\), {b}\), {W}\)\)|sum\(map\(len_utf8\(take\(chars\(arg1\.output\), {b}\)\[\*\]\)\)\)", s):
        return True
    if re.fullmatch(rf"len\((?:collect|from_iter)\(take\(chars\(arg1\.output\), {b}\)\)\)", s):
        return True
    if re.fullmatch(rf"(?:map_or|map_or_else|unwrap_or|unwrap_or_else)\(.*nth\(char_indices\(arg1\.output\), {b}\).*len\(arg1\.output\).*\)", s):
        return True
    if t.op == "phi":
        # a loop over the characters that adds up the lengths of those before the bound
        L = "len_utf8(chars(arg1.output)[*])"
        for k in (1, 4, 5, 7):
            before = k < 5
            qq = at(q, {"index": k, b: 5})
            SS = Sizes(qq)
            steps = set()
            todo, seen = [t], set()
            loops = {t}
            while todo:
                x = todo.pop()
                if x in seen:
                    continue
                seen.add(x)
                for v in SS.edges(x).values():
                    if v.op == "phi":
                        loops.add(v)
                        todo.append(v)
                    else:
                        l = SS.lin(v)
                        d = {(k if not isinstance(k, Term) else ("φ" if k.op == "phi" else qq.c(k))): c for k, c in l.items() if c}
                        steps.add(tuple(sorted((str(k), c) for k, c in d.items())))
                        for k in l:
                            if isinstance(k, Term) and k.op == "phi":
                                todo.append(k)
            if before and any(qq.path_avoiding(h, lambda e: e.kind == "ret", start=body_of(qq, n, h)) is not None for n, h, el, _ in loop_heads(qq) if el == "chars(arg1.output)[*]" and n[0] == "n"):
                return False
            if steps != ({(), tuple(sorted({L: 1, "φ": 1}.items()))} if before else {()}):
                return False
        return True
    return False


def run(ctx):
    ctx.load(["hemtt_workspace", "hemtt_common"])
    token(ctx)
    output(ctx)
    lookups(ctx)
