"""Numbers in a config."""
from rules import *
from lin import *
from coll import *
from logic import *
from wire import check_language

META = dict(
    title="A number in a config stands for exactly its value",
    statement="A number literal in a config (an optional minus, then digits, hexadecimal digits after 0x, or digits with a fraction or an exponent) is its value: a whole literal an integer of 32 bits, or of 64 above 2^31-1, any other a float. An expression of numbers, + - * / % ^, spaces and parentheses, in which a - at the start or behind an operator or opening parenthesis belongs to the number behind it, is its value, with ^ before * / % before + and -, ^ taken from the right and the others from the left, and whole values as integers where they fit. Any other text, such as two numbers in a row or a missing operand or parenthesis, has no value.",
    over=["inputs"],
    forall="all texts of literals and expressions, all values",
    why="the tests evaluate a handful of well-formed expressions; precedence of every pair of operators, malformed expressions and values at the edges of the integer ranges are not among them",
    files=["libs/config/src/parse/number.rs", "libs/config/src/parse/value.rs", "libs/config/src/model/number.rs", "libs/common/src/math.rs"],
    mech=[("number", "libs/config/src/parse/number.rs"), ("math", "libs/config/src/parse/value.rs"), ("Number::try_evaulation/negate", "libs/config/src/model/number.rs"), ("eval", "libs/common/src/math.rs")],
    technique="grammar extraction from parser combinator terms (language equality per alternative), decision tables of the tokenizer, the operator stack and the evaluator over MIR event graphs, concrete evaluation of the range tests",
    note="The combinators, str::parse and the f64 operators do what they document. Values of expressions are computed as 64-bit floats.",
)

D = [str(i) for i in range(10)]
OPS = {43: (1, "Left"), 45: (1, "Left"), 42: (2, "Left"), 47: (2, "Left"), 37: (2, "Left"), 94: (3, "Right")}
MATH = "hemtt_common::math::"
NEXT1 = lambda e: e.kind == "call" and re.search(r"(^|::)next$", e.name) is not None


def run(ctx):
    p = ctx.load(["hemtt_config", "hemtt_common"])
    literals(ctx, p)
    values(ctx, p)
    tokens(ctx, p)
    order(ctx, p)
    postfix(ctx, p)
    joined_up(ctx, p)


# ---------------------------------------------------------------- literals


def digits(n=1):
    d = alt(*D)
    return seq(d, star(d)) if n else star(d)


def grammar(q, t, f=None):
    """the language of a combinator, by character"""
    t = Sizes(q).follow(t)
    if t.op not in ("call", "pure"):
        return None
    n = t.a[0].split("::")[-1]
    a = [x for x in t.a[1] if x.op != "ty"]
    g = lambda i: grammar(q, a[i])
    if n == "just":
        x = Sizes(q).follow(a[0])
        return seq(*([chr(x.a[0])] if x.op == "int" else list(x.a[0]) if x.op == "str" else [None]))
    if n in ("one_of",):
        x = Sizes(q).follow(a[0])
        return alt(*x.a[0]) if x.op == "str" else None
    if n == "digits" and a and a[0].op == "int" and a[0].a[0] == 10:
        return digits()
    if n == "repeated":
        x = g(0)
        return x and star(x)
    if n == "at_least":
        x = grammar(q, Sizes(q).follow(a[0]).a[1][0])
        k = Sizes(q).follow(a[1])
        return x and seq(*([x] * k.a[0] + [star(x)])) if k.op == "int" and k.a[0] < 9 else None
    if n == "or_not":
        x = g(0)
        return x and opt(x)
    if n in ("chain", "then", "ignore_then", "then_ignore"):
        x, y = g(0), g(1)
        return x and y and seq(x, y)
    if n == "or":
        x, y = g(0), g(1)
        return x and y and alt(x, y)
    if n in ("collect", "from_str", "try_map", "map", "map_with_span", "unwrapped", "labelled", "boxed"):
        return g(0)
    return None


def alternatives(q, t):
    """the alternatives of a choice in order"""
    t = Sizes(q).follow(t)
    n = t.a[0].split("::")[-1] if t.op in ("call", "pure") else None
    if n == "choice":
        x = Sizes(q).follow([x for x in t.a[1] if x.op != "ty"][0])
        return [z for y in x.a[3] for z in alternatives(q, y)] if x.op == "agg" else [t]
    if n == "or":
        return [z for y in t.a[1][:2] for z in alternatives(q, y)]
    return [t]


def literals(ctx, p):
    ctx.rule("the alternatives of a literal: the language of each, their order, the conversion and the kind of number")
    f = p.find("hemtt_config::parse::number::number")
    q = ctx.query(f)
    d, h = digits(), alt(*"0123456789abcdefABCDEF")
    spec = {
        "exponent": seq(opt(seq(d, ".")), d, alt("e", "E"), opt(alt("-", "+")), d),
        "fraction": seq(opt(d), ".", d),
        "hex": seq("0", "x", h, star(h)),
        "int": d,
    }
    spec = {k: regex(v) for k, v in spec.items()}
    rs = [e for e in q.rets()]
    if not ctx.expect("literal.result", len(rs) == 1, "one parser for literals", where=f.norm):
        return
    t = Sizes(q).follow(rs[0].res)
    # the sign
    body, signed = t, None
    if t.op in ("call", "pure") and t.a[0].split("::")[-1] == "map":
        b = Sizes(q).follow(t.a[1][0])
        if b.op in ("call", "pure") and b.a[0].split("::")[-1] == "then":
            s = grammar(q, b.a[1][0])
            signed = s is not None and compare(regex(s), regex(opt("-"))) is None
            body = b.a[1][1]
            outs = q.g.cbret.get(t, ())
            el = q.c(b)
            plain = [r for r in outs if re.fullmatch(re.escape(el) + r"(\[\*\])?\.1", q.c(r))]
            ctx.expect("literal.sign", len(plain) >= 1 and signs(ctx, p, f), "a literal with a minus is the negated value, any other the value itself", where=f.norm, detail=str([q.c(r)[-60:] for r in outs]))
    ctx.expect("literal.minus", bool(signed), "a minus in front of a literal is part of it", where=f.norm)
    got = []
    for x in alternatives(q, body):
        g = grammar(q, x)
        n = next((k for k, v in spec.items() if g is not None and compare(regex(g), v) is None), None)
        ctx.expect(f"literal.alternative", n is not None, "every alternative is one of: digits with exponent, with fraction, hexadecimal digits, digits", where=f.norm, detail=q.c(x)[:200])
        if n is None:
            continue
        got.append(n)
        conv(ctx, q, f, x, n)
    for n in spec:
        ctx.expect(f"literal.{n}", n in got, f"literals of the form {n} are read", where=f.norm)
    for a, b in (("exponent", "fraction"), ("exponent", "int"), ("fraction", "int"), ("hex", "int")):
        ctx.expect(f"literal.order.{a}.{b}", a in got and b in got and got.index(a) < got.index(b), f"{a} is tried before {b}, which would stop in the middle of it", where=f.norm)


def signs(ctx, p, f):
    """the closure that applies the sign negates exactly when there is one; negate keeps kind and span"""
    neg = p.find("hemtt_config::model::number::Number::negate")
    q = ctx.query(neg)
    ok = True
    for v in ("Int32", "Int64", "Float32"):
        s = settle(q, [(r"arg1", [v])])
        rs = s.rets()
        good = bool(rs)
        for e in rs:
            r = Sizes(s).follow(e.res)
            m = dict(zip(r.a[2], r.a[3])) if r.op == "agg" else {}
            good = good and r.op == "agg" and r.a[1] == v and re.fullmatch(rf"(neg|Neg)\(arg1\.value(@{v})?\)", s.c(m["value"])) is not None and re.fullmatch(rf"arg1\.span(@{v})?", s.c(m["span"])) is not None
        ctx.expect(f"negate.{v}", good, "negating keeps the kind and the place of a number", where=neg.norm, detail=str([s.c(e.res) for e in rs])[:200])
        ok = ok and good
    disp = p.find("<hemtt_config::model::number::Number as core::fmt::Display>::fmt")
    q = ctx.query(disp)
    for v in ("Int32", "Int64", "Float32"):
        s = settle(q, [(r"arg1", [v])])
        V = rf"(&?arg1\.value(@{v})?)"
        good = bool(s.rets()) and all(re.fullmatch(rf"write_fmt\(arg2, Arguments::new\(b\"\\u00c0\\u0000\", \[new_display\({V}\)\]\)\)|fmt\({V}, arg2\)|write_str\(arg2, (\w+::)*to_string\({V}\)\)", s.c(e.res)) for e in s.rets())
        ctx.expect(f"display.{v}", good, "the text of a number is its value", where=disp.norm, detail=str([s.c(e.res) for e in s.rets()])[:200])
    cl = [b for b in p.fns.values() if b.norm.startswith(f.norm + "::{closure") or b.norm == f.norm]
    used = False
    for b in cl:
        if b is f:
            continue
        s = ctx.query(b, opaque=lambda k: k.endswith("Number::negate"))
        if not any(e.kind == "call" and e.name.endswith("Number::negate") for e in s.events()):
            continue
        used = True
        sign = next((e.args[0] for e in s.events() if e.kind == "br" and e.raw == "variant" and {"Some", "None"} & set(str(e.args[1]).split("|"))), None)
        if sign is None:
            return False
        sc = re.escape(s.c(sign))
        for v, want in (("Some", r"negate\((arg\d(\.1)?)\)"), ("None", r"arg\d(\.1)?")):
            z = settle(s, [(sc, [v])])
            ok = ok and bool(z.rets()) and all(re.fullmatch(want, z.c(e.res)) for e in z.rets())
    return ok and used


def conv(ctx, q, f, x, n):
    """the text of an alternative is converted as what it is and becomes the right kind of number"""
    chain, t = [], Sizes(q).follow(x)
    outer = None
    while t.op in ("call", "pure") and t.a[1]:
        m = t.a[0].split("::")[-1]
        chain.append((m, t))
        if m in ("map_with_span", "map") and outer is None:
            outer = t
        if m == "collect":
            break
        t = Sizes(q).follow(t.a[1][0])
    s = q.c(chain[-1][1]) if chain else ""
    names = [m for m, _ in chain]
    tys = "".join(str(z) for m, c in chain for z in c.a[1] if z.op in ("fn", "ty"))
    isf = n in ("exponent", "fraction")
    if n == "hex":
        inner = [q.c(r) for m, c in chain if m in ("map", "try_map") for r in q.g.cbret.get(c, ())]
        ok = any(re.search(r"from_str_radix\(.*, 16\)", i) for i in inner)
        radix = [e for e in q.events() if e.kind == "call" and e.name.endswith("from_str_radix")]
        ok = ok and all("i64" in e.name or "u64" in e.name or "i128" in e.name for e in radix)
    else:
        want = r"f32|f64" if isf else r"i64|u64|i128"
        fs = [c for m, c in chain if m == "from_str"]
        errs = [z for m, c in chain for z in c.a[1] if z.op == "fn"]
        inner = [q.c(r) for m, c in chain if m in ("map", "try_map") for r in q.g.cbret.get(c, ())]
        ok = bool(fs) and any(any(re.fullmatch(want, str(y)) for y in z.a[2]) for z in errs) or any(re.search(r"\bparse\(", i) for i in inner) or bool(fs) and not errs
    ctx.expect(f"literal.{n}.converted", ok, "the text is converted as a number of its form", where=f.norm, detail=str(names) + tys[:200])
    if outer is None:
        ctx.expect(f"literal.{n}.kind", False, "becomes a number", where=f.norm)
        return
    outs = q.g.cbret.get(outer, ())
    v = r"(as<f64->f32>\()?cb\d\([^()]*\)\)?"
    if isf:
        ok = bool(outs) and all(re.fullmatch(rf"Number::Float32\(value:{v}, span:.*\)", q.c(r)) for r in outs)
        ctx.expect(f"literal.{n}.kind", ok, "is a float of that value", where=f.norm, detail=str([q.c(r) for r in outs])[:200])
        return
    # whole: by size, on the closure itself
    cl = outer.a[1][1]
    b = ctx.p.fns.get(cl.a[1]) if cl.op == "agg" else None
    b = b or next((z for z in ctx.p.fns.values() if cl.op == "agg" and z.norm == cl.a[1]), None) or next((z for z in ctx.p.fns.values() if cl.op == "fn" and z.norm == cl.a[0]), None)
    if not ctx.expect(f"literal.{n}.kind", b is not None, "becomes a number of its size", where=f.norm):
        return
    z = ctx.query(b)
    for val, kind in ((0, "Int32"), (2147483647, "Int32"), (2147483648, "Int64"), (1 << 40, "Int64"), ((1 << 63) - 1, "Int64")):
        y = at(z, {r"arg2|arg2\.0|arg1": val}) if b.norm.find("{closure") >= 0 else at(z, {r"arg1": val})
        rs = y.rets()
        ok = bool(rs) and all(re.match(rf"Number::{kind}\(value:(trunc<i64->i32>\(|as<\w+->\w+>\()?arg\d(\.0)?\)?, span:", y.c(e.res)) for e in rs)
        if not ok and rs:
            # try_from instead of a comparison
            ok = all(re.match(r"Number::Int(32|64)\(value:", y.c(e.res)) for e in rs) and any("try_from" in e.name for e in y.events() if e.kind == "call") and {y.c(e.res).split("(")[0] for e in rs} == {"Number::Int32", "Number::Int64"}
        ctx.expect(f"literal.{n}.{val}", ok, "a whole literal is an integer of 32 bits if it fits, else of 64 bits", where=b.norm, detail=str([y.c(e.res) for e in rs])[:200])


# ---------------------------------------------------------------- the kind of an expression's value


def fval(q, given):
    """values of float comparisons when a term has a value"""
    S = Sizes(q)

    def val(t, d=0):
        t = S.follow(t)
        s = q.c(t)
        for k, v in given:
            if re.fullmatch(k, s):
                return v
        if t.op == "int":
            return float(t.a[0]) if t.a[1] != "bool" else t.a[0]
        if t.op == "cast":
            v = val(t.a[1], d + 1)
            return v if v is None else float(v)
        if re.fullmatch(r"-?\d+(\.\d+)?(e-?\d+)?", s):
            return float(s)
        m = re.fullmatch(r"(?:as|from)(?:<[^>]*>)?\((-?\d+)\)", s)
        if m:
            return float(m.group(1))
        if t.op in ("pure", "call") and d < 20:
            n = t.a[0].split("::")[-1]
            xs = [val(x, d + 1) for x in t.a[1] if x.op != "ty"]
            if None not in xs and xs:
                if n == "fract":
                    return xs[0] - int(xs[0]) if abs(xs[0]) < 1e300 else float("nan")
                if n in ("trunc",):
                    return float(int(xs[0]))
                if n in ("floor", "round"):
                    import math
                    return float(math.floor(xs[0])) if n == "floor" else float(round(xs[0]))
                if n == "abs":
                    return abs(xs[0])
                if n == "from":
                    return xs[0]
                if n == "contains":
                    return None
        if t.op in ("pure", "call") and t.a[0].split("::")[-1] == "contains":
            r, x = S.follow(t.a[1][0]), val(t.a[1][1], d + 1)
            if x is not None and r.op in ("call", "pure") and r.a[0].endswith("RangeInclusive::new"):
                lo, hi = (val(y, d + 1) for y in [y for y in r.a[1] if y.op != "ty"][:2])
                return None if lo is None or hi is None else int(lo <= x <= hi)
            if x is not None and r.op == "agg":
                fl = dict(zip(r.a[2], r.a[3]))
                lo = val(fl["start"], d + 1) if "start" in fl else float("-inf")
                hi = val(fl["end"], d + 1) if "end" in fl else float("inf")
                if lo is not None and hi is not None:
                    return int(lo <= x and (x <= hi if "Inclusive" in r.a[0] else x < hi))
        return None

    def known(t):
        t = S.follow(t)
        if t.op == "bin" and t.a[0] in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
            a, b = val(t.a[1]), val(t.a[2])
            if a is None or b is None:
                return None
            return {"Eq": a == b, "Ne": a != b, "Lt": a < b, "Le": a <= b, "Gt": a > b, "Ge": a >= b}[t.a[0]]
        v = val(t) if t.op in ("pure", "call") and t.a[0].split("::")[-1] == "contains" else None
        return None if v is None else bool(v)
    return known


def values(ctx, p):
    ctx.rule("the kind of number an expression's value becomes, at the edges of the ranges")
    f = p.find("hemtt_config::model::number::Number::try_evaulation")
    q = ctx.query(f, opaque=lambda k: k.endswith("math::eval"))
    E = r"eval\(arg1\)"
    ev = [e for e in q.events() if e.kind == "call" and e.name.endswith("math::eval")]
    ctx.expect("value.eval", bool(ev) and all(q.c(e.args[0]) == "arg1" for e in ev), "the text is evaluated", where=f.norm)
    z = settle(q, [(E, ["None"])])
    ctx.expect("value.none", bool(z.rets()) and all(z.c(e.res) == "Option::None" for e in z.rets()), "a text without a value is no number", where=f.norm)
    for v, k in ((0.0, "Int32"), (1.0, "Int32"), (-7.0, "Int32"), (2147483647.0, "Int32"), (-2147483648.0, "Int32"), (2147483648.0, "Int64"), (-2147483649.0, "Int64"), (1e18, "Int64"), (-1e18, "Int64"), (2.0**63, "Float32"), (-1e25, "Float32"), (1e25, "Float32"), (0.5, "Float32"), (-3.25, "Float32"), (2147483646.5, "Float32")):
        y = settle(q, [(E, ["Some"])], known_of(lambda qq, v=v: fval(qq, [(E + r"\?", v)])))
        rs = y.rets()
        ok = bool(rs) and all(re.fullmatch(rf"Option::Some\(Number::{k}\(value:as<f64->\w+>\({E}\?\), span:arg2\)\)", y.c(e.res)) for e in rs)
        ctx.expect(f"value.{v:g}", ok, "a whole value is an integer where it fits, any other a float", where=f.norm, detail=str([y.c(e.res) for e in rs])[:300])


known_of = lambda f: f


# ---------------------------------------------------------------- the tokens of an expression


def ch(q, t, el):
    return el is not None and q.c(t) == el


def tokens(ctx, p):
    ctx.rule("every character of an expression: part of a number, a token of its own, a space, or an error")
    f = p.find(MATH + "tokenize")
    q0 = ctx.query(f)
    heads = [(k, h, el, ev) for k, h, el, ev in loop_heads(q0) if el == "chars(arg1)[*]"]
    if not ctx.expect("tokens.loop", len(heads) == 1, "the characters of the expression are looked at one by one", where=f.norm):
        return
    C = r"chars\(arg1\)\[\*\]"
    good = lambda e: e.kind == "ret" and not (e.res.op == "agg" and e.res.a[1] == "Err")
    lasts = r"last\(.*\)"
    cases = [(c, None) for c in "0123456789."] + [(c, None) for c in "+*/^%() "] + [("-", v) for v in ("None", "Operator", "LeftParenthesis", "Number", "RightParenthesis")] + [(c, None) for c in "a,#/e_\t=".replace("/", "")]
    for empty in (True, False):
        for c, last in cases:
            want = [(r"is_empty\(mut\(.*\)\)|is_empty\(.*\)", [empty])]
            if last is not None:
                want += [(lasts, ["None" if last == "None" else "Some"])]
                if last != "None":
                    want += [(lasts + r"\?", [last])]
            g = {C: ord(c)}
            q = settle(q0, want, lambda qq: (lambda K: lambda t: (lambda v: None if v is None else bool(v))(K.val(t)) if K.bool(t) else None)(Concrete(qq, g)), dead=lambda qq: Concrete(qq, g).dead)
            hs = [(k, h) for k, h, el, ev in loop_heads(q) if el == "chars(arg1)[*]"]
            if not hs:
                # no way back to the next character
                hs = [(heads[0][0], heads[0][1])]
            k, h = hs[0]
            body = body_of(q, k, h)
            name = f"{'start' if empty else 'number'}.{c if c.strip() else repr(c)}{'.' + last if last else ''}"
            end = lambda e: h(e) or e.kind == "ret"
            isnum = c in "0123456789." or c == "-" and last in ("None", "Operator", "LeftParenthesis")
            valid = c in "0123456789.+-*/^%() "
            if not valid:
                tr = q.path_avoiding(lambda e: False, lambda e: h(e) or good(e), start=body)
                ctx.expect("token.other." + name, tr is None and any(body(e) for e in q.events()), "a character that belongs to no expression is an error", tr or (), f.norm)
                continue
            put = lambda e: e.kind == "call" and re.search(r"Vec::push$", e.name) is not None
            app = lambda e: e.kind == "call" and re.search(r"String::(push|push_str)$", e.name) is not None and q.c(e.args[1]) == "chars(arg1)[*]"
            num = lambda e: put(e) and re.match(r"Token::Number\(.*parse\(", q.c(e.args[1])) is not None
            own = {"(": r"Token::LeftParenthesis", ")": r"Token::RightParenthesis"}.get(c, rf"Token::Operator\(({C}|{ord(c)})\)")
            mine = lambda e: put(e) and re.fullmatch(own, q.c(e.args[1])) is not None
            clear = lambda e: e.kind == "call" and re.search(r"String::(clear|truncate|drain)$|mem::take$", e.name) is not None
            inner = [e for e in q.events() if q.path_avoiding(end, lambda x: x is e, start=body) is not None]
            odd = [e for e in inner if put(e) and not num(e) and not mine(e) or app(e) and not isnum or num(e) and (c in "0123456789." or empty) or mine(e) and (isnum or c == " ")]
            ctx.expect(f"token.{name}.only", not odd, f"'{c}' gives no other token", where=odd[0].where() if odd else f.norm)
            okend = lambda e: h(e) or good(e)
            if isnum:
                tr = q.path_avoiding(app, okend, start=body)
                tw = q.path_avoiding(lambda e: h(e), app, start=app)
                ctx.expect(f"token.{name}", tr is None and tw is None and any(app(e) for e in inner), f"'{c}' belongs to a number", tr or tw or (), f.norm)
            elif c != " ":
                tr = q.path_avoiding(mine, okend, start=body)
                tw = q.path_avoiding(lambda e: h(e), mine, start=mine)
                ctx.expect(f"token.{name}", tr is None and tw is None and any(mine(e) for e in inner), f"'{c}' is a token", tr or tw or (), f.norm)
            if not empty and c not in "0123456789.":
                tr = q.path_avoiding(num, lambda e: okend(e) or mine(e) or app(e), start=body)
                tc = q.path_avoiding(lambda e: clear(e), lambda e: h(e) or app(e), start=num)
                tw = q.path_avoiding(lambda e: h(e), num, start=num)
                took = any(e.name.endswith("mem::take") for e in inner if e.kind == "call")
                ctx.expect(f"token.{name}.flush", tr is None and (tc is None or took) and tw is None and any(num(e) for e in inner), "the number before it ends", tr or tc or tw or (), f.norm)
    # a number that is none, and the number at the end
    q = settle(q0, [(r"(<impl str>::)?parse\(.*\)", ["Err"])])
    br = lambda e: e.kind == "br" and e.args[1] == "Err" and "parse(" in q.c(e.args[0])
    tr = q.path_avoiding(lambda e: False, good, start=br)
    pars = [e for e in q0.events() if e.kind == "call" and re.search(r"<impl str>::parse$|FromStr.*::from_str$", e.name)]
    tr = tr or q.path_avoiding(lambda e: False, good, start=lambda e: e.kind == "call" and re.search(r"<impl str>::parse$", e.name) is not None)
    ctx.expect("token.invalid", bool(pars) and tr is None, "a number that can not be read is an error", tr or (), f.norm)
    head = heads[0][1]
    done = lambda e: e.kind == "br" and e.args[1] == "None" and q0.c(e.args[0]) == "next(chars(arg1))"
    q = settle(q0, [(r"is_empty\(.*\)", [False])])
    num = lambda e: e.kind == "call" and re.search(r"Vec::push$", e.name) is not None and re.match(r"Token::Number\(.*parse\(", q.c(e.args[1])) is not None
    tr = q.path_avoiding(num, good, start=done)
    ctx.expect("token.end", tr is None, "a number at the end of the expression is a token", tr or (), f.norm)
    q = settle(q0, [(r"is_empty\(.*\)", [True])])
    bad = next((e for e in q.events() if e.kind == "call" and re.search(r"Vec::push$", e.name) and re.match(r"Token::Number", q.c(e.args[1])) and q.path_avoiding(lambda x: False, lambda x: x is e, start=done) is not None), None)
    ctx.expect("token.end.none", bad is None and any(good(e) for e in q.events()), "no number is made up at the end", where=bad.where() if bad else f.norm)
    for e in q0.rets():
        if good(e):
            r = q0.c(e.res)
            ctx.expect("token.result", r.startswith("Result::Ok(list[") and all(x in r for x in ("Token::Number", "Token::Operator", "Token::LeftParenthesis", "Token::RightParenthesis")), "the tokens are the result", where=e.where(), detail=r[:200])


# ---------------------------------------------------------------- the operator stack

KIND = {"Number": "N", "Operator": "O", "LeftParenthesis": "L", "RightParenthesis": "R"}


def order(ctx, p):
    f = p.find(MATH + "shunting_yard")
    q0 = ctx.query(f, opaque=lambda k: k.endswith("math::tokenize"))
    T = "tokenize(arg1)?"
    good = lambda e: e.kind == "ret" and not (e.res.op == "agg" and e.res.a[1] in ("Err", "None"))
    heads = [(k, h, el, ev) for k, h, el, ev in loop_heads(q0) if el == T + "[*]"]
    if not ctx.expect("order.loop", bool(heads), "the tokens of the expression are gone through", where=f.norm):
        return
    EL = re.escape(T + "[*]")

    ctx.rule("operands and operators alternate: the language of accepted kinds of tokens")

    def label(e):
        if e.kind == "call" and NEXT1(e) and q0.c(e.args[0]) == T:
            return "token"
        if e.kind == "br" and e.raw == "variant" and type(e.args[0]) is Term and q0.c(e.args[0]) == T + "[*]" and e.args[1] in KIND:
            return e.args[1]
        return None
    one = lambda k: seq("token", k)
    lang = seq(star(one("LeftParenthesis")), one("Number"), star(one("RightParenthesis")), star(seq(one("Operator"), star(one("LeftParenthesis")), one("Number"), star(one("RightParenthesis")))), "token")
    check_language(ctx, "order.alternate", q0, label, lang, "the accepted sequences of numbers, operators and parentheses", accept=good, squeeze=True)
    z = settle(q0, [(r"tokenize\(arg1\)", ["Err"])])
    ctx.expect("order.error", bool(z.rets()) and not any(good(e) for e in z.rets()), "an expression that can not be read has no value", where=f.norm)

    ctx.rule("where each token goes, for every operator and every top of the stack")
    push = lambda e: e.kind == "call" and re.search(r"Vec::push$", e.name) is not None
    pop = lambda e: e.kind == "call" and re.search(r"Vec::pop(_if)?$", e.name) is not None
    # the two lists: the result and the stack
    outl = None
    for e in q0.rets():
        if good(e):
            outl = base(q0, e.res.a[3][0] if e.res.op == "agg" else e.res)
    stacks = {base(q0, e.args[0]) for e in q0.events() if pop(e)}
    ctx.expect("order.lists", outl is not None and len(stacks) == 1 and outl not in stacks, "one stack of operators, one list of results", where=f.norm, detail=f"{outl} {stacks}")
    if outl is None or len(stacks) != 1:
        return
    st = stacks.pop()
    toout = lambda q, e, v: push(e) and base(q, e.args[0]) == outl and v(e.args[1])
    tost = lambda q, e, v: push(e) and base(q, e.args[0]) == st and v(e.args[1])
    istok = lambda q: lambda t: q.c(t) in (T + "[*]",) or re.fullmatch(rf"Token::(Operator\({EL}\.0@Operator\)|LeftParenthesis|Number\({EL}\.0@Number\))", q.c(t)) is not None
    ispop = lambda t: (lambda x: x.op in ("call", "pure") and re.search(r"Vec::pop(_if)?$", x.a[0]) is not None)(deep(q0, t))

    def loop(q):
        return [(k, h) for k, h, el, ev in loop_heads(q) if el == T + "[*]"] or [(heads[0][0], heads[0][1])]

    def seen(q, kind):
        return lambda e: e.kind == "br" and e.raw == "variant" and type(e.args[0]) is Term and e.args[1] == kind and q.c(e.args[0]) == T + "[*]"

    for kind in ("Number", "LeftParenthesis"):
        q = q0
        k, h = loop(q)[0]
        body = seen(q, kind)
        ins = [e for e in q.events() if q.path_avoiding(lambda x: h(x) or x.kind == "ret", lambda x: x is e, start=body) is not None]
        right = (lambda e: toout(q, e, istok(q))) if kind == "Number" else (lambda e: tost(q, e, istok(q)))
        odd = [e for e in ins if (push(e) and not right(e) or pop(e))]
        # within this iteration only
        tr = q.path_avoiding(right, h, start=body)
        tw = q.path_avoiding(h, right, start=right)
        bad = [e for e in odd if q.path_avoiding(lambda x: h(x), lambda x: x is e, start=body) is not None]
        ctx.expect(f"order.{kind}", tr is None and tw is None and not bad and any(right(e) for e in ins), "a number goes to the result, an opening parenthesis to the stack", tr or tw or (), f.norm)

    for op, (pr, assoc) in OPS.items():
        for top in [None, "(", *OPS]:
            LAST = r"last\(.*\)"
            want = []
            if top is None:
                want += [(LAST, ["None"])]
            else:
                want += [(LAST, ["Some"]), (LAST + r"\?", ["LeftParenthesis" if top == "(" else "Operator"])]
            K = precedence(op, top)
            q = settle(q0, want, K[0], dead=K[1])
            k, h = loop(q)[0]
            body = seen(q, "Operator")
            goes = isinstance(top, int) and (pr <= OPS[top][0] if assoc == "Left" else pr < OPS[top][0])
            name = f"order.{chr(op)}.{top if not isinstance(top, int) else chr(top)}"
            end = lambda e: h(e) or e.kind == "ret"
            mine = lambda e: tost(q, e, istok(q))
            moved = lambda e: toout(q, e, ispop)
            ins = [e for e in q.events() if q.path_avoiding(end, lambda x: x is e, start=body) is not None]
            if not any(body(e) for e in q.events()):
                ctx.expect(name, False, "operators are looked at", where=f.norm)
                continue
            if goes:
                # it is moved to the result (and then the next top is looked at), the operator is not put on top of it
                tr = q.path_avoiding(moved, lambda e: h(e) or mine(e), start=body)
                # then the next one is looked at
                look = lambda e: e.kind == "call" and re.search(r"::(last|last_mut|peek|pop|pop_if|get)$", e.name) is not None and base(q, e.args[0]) == st
                tr = tr or q.path_avoiding(look, lambda e: h(e) or mine(e), start=moved)
                ok = tr is None and any(moved(e) for e in ins)
                ctx.expect(name, ok, "an operator on the stack that binds tighter (or as tight, from the left) goes to the result first", tr or (), f.norm)
            else:
                odd = [e for e in ins if pop(e) or push(e) and not mine(e)]
                tr = q.path_avoiding(mine, h, start=body)
                tw = q.path_avoiding(h, mine, start=mine)
                ctx.expect(name, not odd and tr is None and tw is None and any(mine(e) for e in ins), "an operator is put on the stack above what binds less", tr or tw or (), odd[0].where() if odd else f.norm)
    # closing parenthesis
    for top in ("None", "LeftParenthesis", "Operator"):
        PO = r"pop\(.*\)"
        cond = lambda qq, top=top: parens(qq, top)
        z = settle(q0, [(PO, ["None" if top == "None" else "Some"])] + ([(PO + r"\?", [top])] if top != "None" else []), cond)
        k, h = loop(z)[0]
        body = seen(z, "RightParenthesis")
        end = lambda e: h(e) or e.kind == "ret"
        first = [e for e in z.events() if pop(e) and z.path_avoiding(lambda x: end(x) or pop(x) and x is not e, lambda x: x is e, start=body) is not None]
        if top == "None":
            tr = z.path_avoiding(lambda e: False, lambda e: h(e) or good(e), start=body)
            ctx.expect("order.close.none", tr is None and bool(first), "a closing parenthesis without an opening one is an error", tr or (), f.norm)
            continue
        ins = [e for e in z.events() if z.path_avoiding(end, lambda x: x is e, start=body) is not None]
        if top == "LeftParenthesis":
            odd = [e for e in ins if push(e)]
            tr = z.path_avoiding(h, lambda e: pop(e), start=lambda e: any(e is x for x in first)) if first else None
            tr2 = z.path_avoiding(pop, h, start=body)
            ctx.expect("order.close.open", bool(first) and not odd and tr is None and tr2 is None and z.path_avoiding(lambda e: e.kind == "ret", h, start=body) is not None, "the opening parenthesis is dropped with the closing one", tr or tr2 or (), odd[0].where() if odd else f.norm)
        else:
            moved = lambda e: toout(z, e, ispop)
            tr = z.path_avoiding(moved, lambda e: h(e) or pop(e) or good(e), start=lambda e: pop(e) and any(e is x for x in ins))
            tr2 = z.path_avoiding(lambda e: False, h, start=body)
            ctx.expect("order.close.operator", bool(first) and tr is None and tr2 is None and any(moved(e) for e in ins), "the operators in parentheses go to the result", tr or tr2 or (), f.norm)
    # at the end
    done = lambda e: e.kind == "br" and e.args[1] == "None" and type(e.args[0]) is Term and q0.c(e.args[0]) == f"next({T})"
    after_ = [e for e in q0.events() if push(e) and q0.path_avoiding(lambda x: False, lambda x: x is e, start=done) is not None]
    z = settle(q0, [(r"pop\(.*\)", ["Some"])])
    tr = z.path_avoiding(lambda e: False, good, start=done)
    whole = [e for e in q0.events() if e.kind == "call" and re.search(r"::(extend|append)$", e.name) and q0.path_avoiding(lambda x: False, lambda x: x is e, start=done) is not None]
    ok = tr is None and bool(after_) and all(toout(q0, e, ispop) for e in after_)
    if whole and not after_:
        move = lambda e: any(e is x for x in whole)
        tr = q0.path_avoiding(move, good, start=done)
        ok = tr is None and all(base(q0, e.args[0]) == outl and backwards(q0, e.args[1]) == st for e in whole)
    ctx.expect("order.end", ok, "what is left on the stack goes to the result, the last first", tr or (), f.norm)


def backwards(q, t):
    """the list that is gone through from its end"""
    S = Sizes(q)
    rev = False
    for _ in range(10):
        t = S.follow(t)
        if t.op in ("call", "pure") and t.a[0].split("::")[-1] in ("rev", "into_iter", "iter", "drain", "copied", "cloned"):
            rev = rev != (t.a[0].split("::")[-1] == "rev")
            t = t.a[1][0]
        else:
            break
    return base(q, t) if rev else None


def deep(q, t):
    S = Sizes(q)
    for _ in range(20):
        t = S.follow(t)
        if t.op == "fld":
            t = t.a[0]
        elif t.op in ("call", "pure") and t.a[1] and t.a[0].split("::")[-1] in ("branch", "clone", "unwrap", "expect", "ok_or", "copied", "from_output", "deref"):
            t = t.a[1][0]
        else:
            break
    return t


def base(q, t):
    """the local list behind a term"""
    return obj(t, q.g)


def precedence(op, top):
    """truth of comparisons of precedence and associativity when the operator and the top are given"""
    EL = r"tokenize\(arg1\)\?\[\*\]\.0@Operator"
    TOP = r"last\(.*\)\?\.0@Operator"

    def valued(q):
        S = Sizes(q)

        def val(t, d=0):
            t = S.follow(t)
            if t.op == "int":
                return t.a[0]
            s = q.c(t)
            if re.fullmatch(EL, s):
                return op
            if isinstance(top, int) and re.fullmatch(TOP, s):
                return top
            if d > 25:
                return None
            if t.op == "agg":
                return (t.a[1], *[val(x, d + 1) for x in t.a[3]])
            if t.op == "fld":
                b = val(t.a[0], d + 1)
                if isinstance(b, tuple) and t.a[2] == "Some" and b[0] == "Some":
                    return b[1]
                if isinstance(b, tuple) and str(t.a[1]).isdigit() and int(t.a[1]) + 1 < len(b):
                    return b[int(t.a[1]) + 1]
                return None
            if t.op == "phi":
                rs = {val(v, d + 1) for v in S.edges(t).values() if v is not t}
                return rs.pop() if len(rs) == 1 else None
            if t.op in ("call", "pure"):
                n = t.a[0].split("::")[-1]
                a = [x for x in t.a[1] if x.op != "ty"]
                if n in ("get", "index") and len(a) == 2:
                    tab, key = assoc(q, a[0]), val(a[1], d + 1)
                    if tab is None or key is None:
                        return None
                    r = tab.get(key)
                    return r if n == "index" else ("Some", r) if r is not None else ("None",)
                if n in ("deref", "clone", "as_ref", "copied", "cloned", "borrow", "branch", "unwrap"):
                    v = val(a[0], d + 1)
                    return v[1] if n == "unwrap" and isinstance(v, tuple) and len(v) == 2 else v
                if n in ("eq", "ne", "lt", "le", "gt", "ge") and len(a) == 2:
                    x, y = val(a[0], d + 1), val(a[1], d + 1)
                    return cmp(n.capitalize(), x, y)
            if t.op == "bin":
                return cmp(t.a[0], val(t.a[1], d + 1), val(t.a[2], d + 1))
            return None

        def cmp(n, x, y):
            if x is None or y is None or isinstance(x, tuple) and None in x or isinstance(y, tuple) and None in y:
                return None
            try:
                return {"Eq": x == y, "Ne": x != y, "Lt": x < y, "Le": x <= y, "Gt": x > y, "Ge": x >= y}.get(n)
            except TypeError:
                return None
        return val

    def known(q):
        v = valued(q)

        def k(t):
            r = v(t)
            return r if isinstance(r, bool) else None
        return k

    def dead(q):
        v = valued(q)

        def d(e):
            if e.kind != "br" or not isinstance(e.args[0], Term):
                return False
            w = e.args[1]
            r = v(e.args[0])
            if r is None:
                return False
            if e.raw == "variant" and isinstance(w, str):
                return isinstance(r, tuple) and r[0] not in w.split("|")
            if e.raw == "bool" and isinstance(r, bool):
                return r is not w
            if e.raw == "int" and isinstance(r, int):
                return r in w[1] if isinstance(w, tuple) else r != int(w)
            return False
        return d
    return known, dead


def assoc(q, t):
    """the pairs of a table made from constants"""
    S = Sizes(q)
    for _ in range(20):
        t = S.follow(t)
        if t.op in ("call", "pure") and t.a[1] and t.a[0].split("::")[-1] in ("collect", "copied", "cloned", "iter", "into_iter", "from", "from_iter", "into", "deref", "as_ref", "borrow"):
            t = t.a[1][0]
        else:
            break
    if t.op != "agg" or t.a[0] != "arr":
        return None

    def v(x):
        x = S.follow(x)
        if x.op == "int":
            return x.a[0]
        if x.op == "agg":
            return (x.a[1], *[v(y) for y in x.a[3]])
        return None
    r = {}
    for x in t.a[3]:
        y = v(x)
        if not isinstance(y, tuple) or len(y) != 3 or y[1] is None:
            return None
        r[y[1]] = y[2]
    return r


def parens(q, top):
    S = Sizes(q)

    def k(t):
        t = S.follow(t)
        e = equality(t)
        if not e or top == "None":
            return None
        a, b = (S.follow(x) for x in e[:2])
        for x, y in ((a, b), (b, a)):
            if y.op == "agg" and y.a[1] in KIND and re.search(r"^pop\(.*\)\?$", q.c(x)):
                return (y.a[1] == top) is e[2]
        return None
    return k


# ---------------------------------------------------------------- evaluation


def postfix(ctx, p):
    ctx.rule("evaluation: numbers are put on the stack, operators applied to the two on top in order")
    f = p.find(MATH + "evaluate_postfix")
    q0 = ctx.query(f)
    good = lambda e: e.kind == "ret" and not (e.res.op == "agg" and e.res.a[1] in ("Err", "None"))
    heads = [(k, h, el, ev) for k, h, el, ev in loop_heads(q0) if el == "arg1[*]"]
    if not ctx.expect("postfix.loop", bool(heads), "all of the tokens are evaluated", where=f.norm):
        return
    push = lambda e: e.kind == "call" and re.search(r"Vec::push$", e.name) is not None
    pop = lambda e: e.kind == "call" and re.search(r"Vec::pop$", e.name) is not None

    def at_(want, dead=None):
        q = settle(q0, want, dead=dead)
        l = [(k, h) for k, h, el, ev in loop_heads(q) if el == "arg1[*]"] or [(heads[0][0], heads[0][1])]
        k, h = l[0]
        body = body_of(q, k, h)
        end = lambda e: h(e) or e.kind == "ret"
        ins = [e for e in q.events() if q.path_avoiding(end, lambda x: x is e, start=body) is not None]
        return q, h, body, ins
    q, h, body, ins = at_([(r"arg1\[\*\]", ["Number"])])
    right = lambda e: push(e) and q.c(e.args[1]) == "arg1[*].0@Number"
    tr = q.path_avoiding(right, h, start=body) or q.path_avoiding(h, right, start=right)
    odd = [e for e in ins if pop(e) or push(e) and not right(e)]
    ctx.expect("postfix.number", tr is None and not odd and any(right(e) for e in ins), "a number is put on the stack", tr or (), f.norm)
    q, h, body, ins = at_([(r"arg1\[\*\]", ["LeftParenthesis", "RightParenthesis"])])
    tr = q.path_avoiding(lambda e: False, lambda e: h(e) or good(e), start=body)
    ctx.expect("postfix.parenthesis", tr is None and any(body(e) for e in q.events()), "a parenthesis that is left over has no value", tr or (), f.norm)
    fun = {43: "Add", 45: "Sub", 42: "Mul", 47: "Div", 37: "Rem", 94: "powf"}
    for op, nm in fun.items():
        g = {r"arg1\[\*\]\.0@Operator": op}
        q, h, body, ins = at_([(r"arg1\[\*\]", ["Operator"])], lambda qq: Concrete(qq, g).dead)
        pops = [e for e in ins if pop(e)]
        first = [e for e in pops if q.path_avoiding(lambda x: h(x) or pop(x) and x is not e, lambda x: x is e, start=body) is not None]
        second = [e for e in pops if not any(e is x for x in first)]
        ok = len(first) == 1 and len(second) == 1
        puts = [e for e in ins if push(e)]
        for e in puts:
            t = Sizes(q).follow(e.args[1])
            if t.op == "bin":
                a, b, n = t.a[1], t.a[2], t.a[0]
            elif t.op in ("call", "pure"):
                xs = [x for x in t.a[1] if x.op != "ty"]
                a, b, n = xs[0], xs[1] if len(xs) > 1 else None, t.a[0].split("::")[-1]
                n = {"add": "Add", "sub": "Sub", "mul": "Mul", "div": "Div", "rem": "Rem", "pow": "powf"}.get(n, n)
            else:
                ok = False
                break
            ok = ok and n == nm and b is not None and deep(q, a) is second[0].res and deep(q, b) is first[0].res if ok else False
        tr = q.path_avoiding(push, h, start=body) or q.path_avoiding(h, push, start=push)
        ctx.expect(f"postfix.{chr(op)}", ok and bool(puts) and tr is None, "the value of the operator is that of the two values on top of the stack, the upper one on the right", tr or (), f.norm, detail=str([q.c(e.args[1])[:80] for e in puts]))
        for e in first + second:
            z = settle(q, dead=lambda qq, e=e: lambda x: x.kind == "br" and x.args[1] == "Some" and type(x.args[0]) is Term and deep(qq, x.args[0]) is e.res)
            miss = lambda x: x.kind == "br" and x.args[1] in ("None", "Break") and type(x.args[0]) is Term and deep(z, x.args[0]) is e.res
            tr = z.path_avoiding(lambda x: False, lambda x: h(x) or good(x) and x.kind == "ret", start=miss)
            ctx.expect(f"postfix.{chr(op)}.missing", tr is None, "an operator without its operands has no value", tr or (), f.norm)
    for e in q0.rets():
        if good(e):
            t = deep(q0, e.res.a[3][0] if e.res.op == "agg" else e.res)
            ctx.expect("postfix.result", t.op in ("call", "pure") and re.search(r"Vec::pop$|::last$|::first$", t.a[0]) is not None, "the value is the one that is left", where=e.where(), detail=q0.c(e.res)[:100])
    f = p.find(MATH + "eval")
    q = ctx.query(f, opaque=lambda k: bool(re.search(r"math::(shunting_yard|evaluate_postfix)$", k)))
    for e in q.rets():
        s = q.c(e.res)
        ctx.expect("eval", s == "Option::None" or s == "evaluate_postfix(shunting_yard(arg1)?)", "an expression is evaluated in the order of its operators", where=e.where(), detail=s[:200])
    ctx.expect("eval.some", any(q.c(e.res) != "Option::None" for e in q.rets()), "expressions have a value", where=f.norm)


# ---------------------------------------------------------------- the text of an expression


def joined_up(ctx, p):
    ctx.rule("the text that is evaluated keeps numbers apart that are apart in the source")
    f = p.find("hemtt_config::parse::value::math")
    q = ctx.query(f, opaque=lambda k: k.endswith("number::number") or k.endswith("try_evaulation"))
    rs = q.rets()
    alts = None
    t = Sizes(q).follow(rs[0].res) if rs else None
    names = []
    rep = None
    while t is not None and t.op in ("call", "pure") and t.a[1]:
        n = t.a[0].split("::")[-1]
        if n in ("choice", "or"):
            alts = alternatives(q, t)
            break
        names.append(n)
        if n == "try_map":
            rep = t
        t = Sizes(q).follow(t.a[1][0])
    if not ctx.expect("expression.parts", bool(alts), "an expression is a sequence of parts", where=f.norm):
        return
    chars, nums = [], []
    for a in alts:
        c = q.c(a)
        if "number(" in c or "number::number" in c:
            nums.append(a)
        else:
            g = grammar(q, a)
            chars.append((g, c))
    ps = alt(*[g for g, c in chars if g is not None])
    ctx.expect("expression.chars", all(g is not None for g, c in chars) and compare(regex(ps), regex(alt(*"-+*/%^() "))) is None, "the other parts are the operators, parentheses and spaces", where=f.norm, detail=str([c for g, c in chars])[:200])
    ctx.expect("expression.number", len(nums) == 1 and alts[0] is nums[0], "a part that is a number is taken as a whole", where=f.norm)
    for a in nums:
        outs = q.g.cbret.get(Sizes(q).follow(a), ())
        for r in outs:
            s = text(q, r)
            ok = re.fullmatch(r"[ ]*«[^«»]*»[ ]*", s) is not None and (s.endswith(" ") or s.startswith(" "))
            ctx.expect("expression.apart", ok, "two numbers in a row stay apart", where=f.norm, detail=s[:120])
        ctx.expect("expression.text", bool(outs), "a number is put into the text", where=f.norm)
    if ctx.expect("expression.evaluated", rep is not None, "the text is evaluated", where=f.norm):
        ev = [e for e in q.events() if e.kind == "call" and e.name.endswith("try_evaulation")]
        outs = q.g.cbret.get(rep, ())
        ok = bool(ev) and bool(outs)
        for r in outs:
            s = q.c(r)
            ok = ok and (re.match(r"Result::Ok\(try_evaulation\(.*\)\?\)", s) is not None or s.startswith("Result::Err(") or re.match(r"ok_or(_else)?\(try_evaulation\(", s) is not None)
        ctx.expect("expression.value", ok, "the value of an expression is that of its text", where=f.norm, detail=str([q.c(r)[:120] for r in outs]))
