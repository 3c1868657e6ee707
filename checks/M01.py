"""C strings and compressed integers."""
from rules import *
from wire import *
import bits

META = dict(
    title="C strings and compressed integers survive a round trip exactly",
    statement="A C string is written as its bytes followed by exactly one NUL, and reading one consumes everything through the first NUL and returns the bytes before it. A compressed integer is written, for every 32-bit value, as little-endian groups of seven bits with the continuation bit on all but the last; the length reported by the writer and the one computed without writing both equal the number of bytes written, and the reader reassembles exactly the value that was written and stops at the group without a continuation bit.",
    over=["inputs"],
    forall="all strings, all 32-bit values and all byte streams that encode them",
    why="the test enumerates values below 2^20 only; four- and five-byte encodings and the agreement of the three copies of the loop are not covered, and offsets in binarized configs depend on that agreement",
    files=["libs/common/src/io.rs"],
    mech=[("ReadExt / WriteExt / compressed_int_len", "libs/common/src/io.rs")],
    technique="abstract interpretation of the loop bodies in a bit-provenance domain plus output-language automata over MIR paths",
    note="All paths; values encoded in more than five groups are outside the property.",
)

RX, WX = "<T as hemtt_common::io::ReadExt>::", "<T as hemtt_common::io::WriteExt>::"


def more_groups(q, e, ph):
    """True/False when the branch says whether bits above the low seven of ph are set"""
    if e.kind != "br":
        return None
    t, v = e.args[0], e.args[1]
    if e.raw == "int":
        return None
    r = relation(t, v)
    if r is None:
        return None
    x, rel, y = r
    for a, b, rl in ((x, y, rel), (y, x, SWAP[rel])):
        if b.op != "int":
            continue
        k = b.a[0]
        if a is ph:
            if (rl, k) in ((">", 127), (">=", 128)):
                return True
            if (rl, k) in (("<=", 127), ("<", 128)):
                return False
        bs = bits.ev(a, {ph: bits.var("x", 32)}, 32)
        if bs is not None and k == 0:
            live = {z for z in bs if z != 0}
            if live == {("x", i) for i in range(7, 32)}:
                return {"!=": True, ">": True, "==": False, "<=": False}.get(rl)
    return None


def loopvar(ctx, key, q, arg, where):
    """the loop variable that starts at arg and loses its low seven bits per round"""
    cand = []
    for e in q.events():
        if e.kind == "br":
            for ph in reaches(q.g, e.args[0], lambda t: t.op == "phi"):
                if ph not in cand and more_groups(q, e, ph) is not None:
                    cand.append(ph)
    good = None
    for ph in cand:
        al = [x for x in q.g.phi.get(ph, ()) if x is not ph]
        ok = True
        for x in al:
            if q.c(x) == arg or (x.op == "param"):
                continue
            b = bits.ev(x, {ph: bits.var("x", 32)}, 32)
            if b != bits.var("x", 32)[7:] + [0] * 7:
                ok = False
        if ok and any(x.op == "param" for x in al):
            good = ph
    ctx.expect(key + ".shift", good is not None, "each round drops exactly the low seven bits of the value", where=where)
    return good


def count_is(ctx, key, q, rets, ph, where):
    """the returned count is 1 + number of rounds"""
    for e in rets:
        v = e.res
        if v.op == "agg" and v.a[3]:
            v = v.a[3][0]
        ok = False
        while v.op == "fld" and v.a[0].op == "bin":
            v = v.a[0]
        add = 0
        if v.op == "bin" and v.a[0].startswith("Add"):
            a, b = v.a[1], v.a[2]
            if a.op == "int":
                a, b = b, a
            if b.op == "int":
                v, add = a, b.a[0]
        if v.op == "phi":
            c = counter(q, v)
            ok = c is not None and c[1] == 1 and c[0] + add == 1
        ctx.expect(key + ".count", ok, "the reported length is one more than the number of rounds", where=where)


def rounds(ctx, key, q, ph, where):
    """the loop runs exactly while more than seven bits are left"""
    more = lambda e: more_groups(q, e, ph) is True
    last = lambda e: more_groups(q, e, ph) is False
    ret = lambda e: e.kind == "ret" and not is_err(e.res)
    tr = q.path_avoiding(last, ret)
    ctx.expect(key + ".ends", tr is None, "it stops only when at most seven bits are left", tr or (), where)
    tr = q.path_avoiding(lambda e: more(e) or last(e), ret, start=more)
    ctx.expect(key + ".continues", tr is None, "it goes on while more than seven bits are left", tr or (), where)
    tr = q.path_avoiding(lambda e: False, more, start=last)
    ctx.expect(key + ".stops", tr is None, "nothing more follows the last group", tr or (), where)
    return more, last


def run(ctx):
    ctx.load(["hemtt_common"])
    ctx.rule("loop body of writer/length/reader as a transformation of individual bits: shift by seven, group = low seven bits + continuation bit, the same loop condition in writer and length function; language of bytes written")
    # strings
    root = WX + "write_cstring"
    q = ctx.query(root)
    check_language(ctx, "cstr-write", q, lambda e: write_label(q, e, lambda t: q.c(obj(t, q.g)) == "arg1"), seq("bytes:arg2", "b'\\x00'"), "bytes then one NUL")
    root = RX + "read_cstring"
    q = ctx.query(root)
    isb = lambda s: re.fullmatch(r"(bytes\((mut\()?arg1\)?\)\[\*\]\?|read_u8\((mut\()?arg1\)?\)\?|.*read_exact!1.*\[0\])", s) is not None

    def zero(v):
        def f(e):
            if e.kind != "br":
                return False
            if e.raw == "int" and isb(q.c(e.args[0])):
                return (e.args[1] == 0) is v
            r = relation(e.args[0], e.args[1])
            if r is None:
                return False
            x, rel, y = r
            for a, b, rl in ((x, y, rel), (y, x, SWAP[rel])):
                if b.op == "int" and b.a[0] == 0 and isb(q.c(a)):
                    return (rl == "==") is v and rl in ("==", "!=")
            return False
        return f

    push = lambda e: e.kind == "call" and re.search(r"(Vec|String)::push$|extend_from_slice$", e.name) and isb(q.c(e.args[1]))
    until = [e for e in q.events() if e.kind == "call" and e.name.endswith("BufRead::read_until")]
    if not until:
        ctx.expect("cstr-read.stop-byte", any(zero(True)(e) for e in q.events()), "the NUL byte is recognised", where=root)
        more = lambda e: e.kind == "call" and (NEXT.search(e.name) and "bytes(" in q.c(e.args[0]) or re.search(r"Read::read(_exact)?$|read_u8$", e.name))
        tr = q.path_avoiding(lambda e: False, lambda e: more(e) or push(e), start=zero(True))
        ctx.expect("cstr-read.stops", tr is None, "nothing is consumed or kept after the NUL", tr or (), root)
        tr = q.path_avoiding(push, lambda e: more(e) or (e.kind == "ret" and not is_err(e.res)), start=zero(False))
        ctx.expect("cstr-read.keeps", tr is None, "every other byte is kept", tr or (), root)
        tr = q.path_avoiding(lambda e: zero(False)(e), push, start=more)
        ctx.expect("cstr-read.once", tr is None, "only bytes that were read and are not NUL are kept, once each", tr or (), root)
        tr = q.path_avoiding(lambda e: more(e) or zero(True)(e), push, start=push)
        ctx.expect("cstr-read.once2", tr is None, "each byte is kept once", tr or (), root)
    conv = [e for e in q.events() if e.kind == "call" and re.search(r"String::from_utf8(_lossy|_unchecked)?$|str::from_utf8$|String::from_utf8_lossy_owned$", e.name)]
    ctx.expect("cstr-read.result", len(conv) >= 1 and all(("bytes(" in q.c(e.args[0]) or "read" in q.c(e.args[0])) for e in conv), "the bytes kept are what is returned", where=root)
    for e in q.rets():
        if not is_err(e.res):
            ctx.expect("cstr-read.returned", "from_utf8" in q.c(e.res), f"the returned string is built from them ({q.c(e.res)[:80]})", where=root)
    # compressed integers: length
    root = "hemtt_common::io::compressed_int_len"
    q = ctx.query(root)
    ph = loopvar(ctx, "len", q, "arg1", root)
    if ph is not None:
        more, last = rounds(ctx, "len", q, ph, root)
        count_is(ctx, "len", q, q.rets(), ph, root)
    # writer
    root = WX + "write_compressed_int"
    q = ctx.query(root)
    ph = loopvar(ctx, "write", q, "arg2", root)
    if ph is not None:
        more, last = rounds(ctx, "write", q, ph, root)
        count_is(ctx, "write", q, [e for e in q.rets() if not is_err(e.res)], ph, root)
        X = bits.var("x", 32)

        def lab(e):
            if e.kind != "call":
                return None
            d = None
            if re.search(r"Write::write_all$", e.name):
                d = e.args[1]
                if d.op == "agg" and d.a[0] == "arr" and len(d.a[3]) == 1:
                    d = d.a[3][0]
                elif d.op == "agg" and d.a[0] == "arr":
                    return "several"
            elif re.search(r"write_u8$", e.name):
                d = e.args[1]
            elif re.search(r"Write::write$|write_[ui]\d+$", e.name):
                return "other"
            if d is None:
                return None
            b = bits.ev(d, {ph: X}, 8)
            if b is None:
                return "?" + q.c(d)[:60]
            if b[:7] == X[:7] and len(b) == 8:
                return {1: "MORE", 0: "LAST", ("x", 7): "LAST"}.get(b[7], "?top bit")
            return "?bits"

        check_language(ctx, "write", q, lab, seq(star("MORE"), "LAST"), "groups of seven bits, continuation bit on all but the last")
        isl = lambda k: lambda e: lab(e) == k
        tr = q.path_avoiding(more, isl("MORE"))
        ctx.expect("write.more-guard", tr is None, "a continuation group only when more bits are left", tr or (), root)
        tr = q.path_avoiding(isl("MORE"), lambda e: more(e) or last(e), start=more)
        ctx.expect("write.more-emits", tr is None, "every round writes its group", tr or (), root)
        tr = q.path_avoiding(last, isl("LAST"))
        ctx.expect("write.last-guard", tr is None, "the last group only when at most seven bits are left", tr or (), root)
    # reader
    root = RX + "read_compressed_int"
    q = ctx.query(root)
    B = bits.var("b", 8)
    bt = {t for e in q.events() for a in (e.args if e.kind in ("br", "call") else (e.res,) if e.kind == "ret" and e.res is not None else ()) if type(a) is Term for t in reaches(q.g, a, lambda t: isb(q.c(t)))}
    env0 = {t: B + [0] * 24 for t in bt}
    accs = []
    for e in q.rets():
        if is_err(e.res):
            continue
        v = e.res.a[3][0] if e.res.op == "agg" and e.res.a[3] else e.res
        accs += reaches(q.g, v, lambda t: t.op == "phi")
    todo, accs = list(dict.fromkeys(accs)), []
    while todo:
        ph = todo.pop()
        if ph in accs or counter(q, ph) is not None:
            continue
        accs.append(ph)
        for x in q.g.phi.get(ph, ()):
            todo += reaches(q.g, x, lambda t: t.op == "phi" or isb(q.c(t)) or q.c(t) == "index" )
        todo = [t for t in todo if t.op == "phi" and not NEXT.search(repr(t))]
    steps = []
    idxs = lambda t: reaches(q.g, t, lambda y: q.c(y) == "index" or (y.op == "phi" and counter(q, y) is not None))
    for ph in accs:
        for x in q.g.phi.get(ph, ()):
            if x.op in ("int", "phi") or x is ph:
                continue
            steps.append(x)
    ok = bool(steps)
    for x in steps:
        prev = reaches(q.g, x, lambda t: t in accs) + [t for t in (x.a[1], x.a[2]) if x.op == "bin" and t.op == "int" and t.a[0] == 0]
        for k in range(5):
            env = dict(env0)
            P = bits.var("p", 7 * k) + [0] * (32 - 7 * k)
            for t in prev:
                env[t] = P
            for t in idxs(x):
                if t in accs:
                    continue
                c = (0, 1) if t.op != "phi" else counter(q, t)
                env[t] = c[0] + c[1] * k if isinstance(c[0], int) else None
            got = bits.ev(x, env, 32)
            want = (P[: 7 * k] + B[:7] + [0] * 32)[:32]
            if got != want:
                ok = False
                ctx.bad("read.group", f"group {k} is not placed at bits {7*k}..{7*k+6} ({q.c(x)[:80]})", where=root)
                break
    ctx.expect("read.groups", ok, "every group lands at its own seven bits", where=root)

    def top(e):
        """True: continuation bit set, False: clear"""
        if e.kind != "br":
            return None
        r = relation(e.args[0], e.args[1])
        if r is None:
            return None
        x, rel, y = r
        for a, b, rl in ((x, y, rel), (y, x, SWAP[rel])):
            if b.op != "int":
                continue
            k = b.a[0]
            full = bits.ev(a, env0, 32)
            if full is None:
                continue
            if full[:8] == B and not any(full[8:]):
                m = {("<", 128): False, ("<=", 127): False, (">=", 128): True, (">", 127): True}.get((rl, k))
                if m is not None:
                    return m
            live = {z for z in full if z != 0}
            if live == {("b", 7)}:
                if k == 0:
                    return {"==": False, "!=": True, ">": True}.get(rl)
                if k in (128, 1):
                    return {"==": True, "!=": False}.get(rl)
        return None

    more = lambda e: e.kind == "call" and (NEXT.search(e.name) or re.search(r"read_u8$|Read::read(_exact)?$", e.name)) is not None and True
    tr = q.path_avoiding(lambda e: False, lambda e: bool(more(e)), start=lambda e: top(e) is False)
    ctx.expect("read.stops", tr is None and any(top(e) is False for e in q.events()), "the reader stops after the group without continuation bit", tr or (), root)
    tr = q.path_avoiding(lambda e: bool(more(e)), lambda e: e.kind == "ret" and not is_err(e.res), start=lambda e: top(e) is True)
    ctx.expect("read.continues", tr is None and any(top(e) is True for e in q.events()), "the reader goes on after a continuation bit", tr or (), root)
