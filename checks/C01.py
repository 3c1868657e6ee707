"""Rapified sizes, offsets and structure."""
from rules import *
from wire import *
from lin import *

META = dict(
    title="Rapified sizes and offsets equal the bytes actually written",
    statement="For every config tree free of reported errors, each construct rapifies to exactly as many bytes as the length computed for it beforehand and the count it returns. In the binarized file every sub-class entry carries the absolute position at which that class's body starts, the offset after a class's entries is the position after its last direct body, the header's enum offset is the position of the trailer, and each class body follows once, complete and in the order of the entries.",
    over=["inputs"],
    forall="all config trees: any nesting, any number and mix of entries, classes, external classes, deletions, arrays and values",
    why="the tests compare a few fixed configs; offsets depend on the sizes of everything before them, so a size that is wrong for one construct only shows in configs that use it before a class",
    files=["libs/config/src/rapify"],
    mech=[("Rapify for Class", "libs/config/src/rapify/class.rs"), ("Rapify for Config", "libs/config/src/rapify/config.rs"), ("Rapify for Array/Item/Value/Number/Str/Expression/Property", "libs/config/src/rapify")],
    technique="ghost byte counter: linear-invariant dataflow over all MIR paths, split by variant, with sums over lists; induction on the tree",
    note="By induction on the tree (each construct assumes the statement for its children). The 32-bit offsets are taken modulo 2^32; write() of one byte is taken to write it.",
)

OPQ = re.compile(r"rapify::Rapify for .*>::rapif|::property_code$|compressed_int|write_cstring|model::property::Property>?::name$")
MUTATE = r"Vec::(push|insert|extend|append|clear|truncate|drain|retain|swap|reverse|resize|remove|pop|dedup|rotate|split_off|sort)|slice.*::(swap|reverse|sort|fill|copy|rotate|iter_mut)|Extend::extend|Write::write"
E = r"arg1\.(?:properties@Local|properties@Root)\[\*\]"


def opaque(k):
    return bool(OPQ.search(k))


def rules(external=False):
    def L(q, c):
        s = q.c(c.a[1][0])
        if external and re.fullmatch(E + r"\.0@Class", s):
            return Lin()
        return f"L({s})"

    return [
        (r"Rapify::rapify$|::rapified_length$", L),
        (r"compressed_int_len$", lambda q, c: f"cil({q.c(c.a[1][0])})"),
        (r"write_compressed_int$", lambda q, c: f"cil({q.c(c.a[1][1])})"),
        (r"Write::write$", lambda q, c: datasize(Sizes(q), c.a[1][1])),
    ]


class Case:
    """one function restricted to one combination of variants"""

    def __init__(self, ctx, root, want=(), external=False):
        q = ctx.query(root, opaque=opaque)
        if want:
            w = [(lambda s, k=k: re.fullmatch(k, s) is not None, vs) for k, vs in want]
            for _ in range(3):
                q = restrict(q, variant_dead(q, w))
        self.q = q
        self.S = Sizes(q, [(r"(^|::)len$", self.buflen)] + rules(external))
        self.sink = lambda t: q.c(obj(t, q.g)) == "arg2"

    def size(self, e):
        if e.kind == "call" and e.args:
            if e.name.endswith("Rapify::rapify") and len(e.args) > 1 and self.sink(e.args[1]):
                return self.S.lin(T("fld", e.res, "0", "Ok"))
            if re.search(r"Write::write_all$|Write::write$", e.name) and self.sink(e.args[0]):
                return self.data(e.args[1])
        return emitted(self.S, e, self.sink)

    def data(self, t):
        """size of what is written; the contents of an in-memory buffer count as what was rapified into it"""
        b = self.body(t)
        if b is not None:
            return self.S.lin(T("fld", b, "0", "Ok"))
        return datasize(self.S, t)

    def buflen(self, q, c):
        b = self.body(c.a[1][0]) if len(c.a[1]) == 1 else None
        return self.S.lin(T("fld", b, "0", "Ok")) if b is not None else None

    def body(self, t):
        """the rapify call whose output is exactly the contents of this buffer"""
        x = self.S.follow(strip_view(t))
        for y in self.elems(x):
            y = strip_view(y)
            if y.op == "out" and y.a[0].op == "call" and y.a[0].a[0].endswith("Rapify::rapify") and y.a[1] == 1:
                c = y.a[0]
                base = c.a[1][1]
                if base.op == "call" and re.search(r"Cursor::new$", base.a[0]) and base.a[1][0].op == "call" and re.search(r"from_elem$", base.a[1][0].a[0]):
                    n = self.S.lin(base.a[1][0].a[1][1])
                    if n == self.S.lin(T("fld", c, "0", "Ok")):
                        return c
                elif base.op == "call" and BUFCTOR.search(base.a[0]) and all(not (z.op == "call" and z.a[0].endswith("from_elem")) for z in base.a[1]):
                    return c
        return None

    def elems(self, x):
        """x, or the terms pushed into the list x is an element of"""
        yield x
        if x.op == "fld" and x.a[2] in ("Some",) and x.a[0].op == "call" and NEXT.search(x.a[0].a[0]):
            seen, st = set(), [x.a[0].a[1][0]]
            pushed = []
            while st:
                y = st.pop()
                if y in seen:
                    continue
                seen.add(y)
                if y.op == "phi":
                    st.extend(self.q.g.phi.get(y, ()))
                elif y.op == "out" and y.a[0].op == "call":
                    if re.search(r"Vec::push$|push_back$", y.a[0].a[0]):
                        pushed.append(y.a[0].a[1][1])
                    st.append(y.a[0].a[1][y.a[1]])
                elif y.op in ("call", "pure") and y.a[1] and re.search(r"::(into_iter|iter|iter_mut|into_boxed_slice)$", y.a[0]):
                    st.append(y.a[1][0])
            if len(set(pushed)) == 1:
                yield pushed[0]

    def run(self):
        self.val, self.ins = ghost(self.S, self.size)
        return self

    def rets(self):
        """(node, event, returned count term) of successful returns"""
        out = []
        for n, es in self.q.g.succ.items():
            for i, (ev, m) in enumerate(es):
                pre = []
                for e in flat(ev):
                    if e.kind == "ret" and not is_err(e.res):
                        v = e.res
                        if v.op == "agg" and v.a[1] == "Ok":
                            v = v.a[3][0]
                        elif v.op != "int" and v.op in ("call", "phi"):
                            # a delegated result: its Ok payload
                            v = T("fld", self.S.follow(v), "0", "Ok") if "rapified_length" not in self.q.root.norm else v
                        out.append((n, e, v))
        return out

    def at(self, pred):
        """[(event, bytes emitted before it, node)]"""
        out = []
        for n, es in self.q.g.succ.items():
            if n not in self.val:
                continue
            for ev, m in es:
                v = self.val[n]
                for e in flat(ev):
                    if pred(e):
                        out.append((e, v, n))
                    s = self.size(e)
                    v = v if v is TOP or s is None else v.plus(s)
        return out


def norm(l):
    """sums split term by term"""
    r = Lin()
    for a, c in l.items():
        if isinstance(a, Sigma):
            for b, k in norm(a.body).items():
                if b == 1:
                    r = r.plus(Lin({f"count[{a.elem}]": c * k}))
                else:
                    r = r.plus(Lin({f"Σ {b}": c * k}))
        else:
            r = r.plus(Lin({a: c}))
    return r


def same(a, b):
    return a is not TOP and b is not TOP and norm(a) == norm(b)


def simple(ctx, ty, case, want, spec=None):
    """written == returned == rapified_length"""
    p = ctx.p
    wr = Case(ctx, p.find_impl("Rapify", ty, "rapify"), want).run()
    ln = Case(ctx, p.find_impl("Rapify", ty, "rapified_length"), want).run()
    name = f"{ty}{'.' + case if case else ''}"
    lens = [ln.S.closed(ln.S.lin(v)) for n, e, v in ln.rets()]
    if not ctx.expect(name + ".length", len(lens) >= 1 and len({norm(l).key() for l in lens}) == 1, f"the length of {name} is one expression", where=ln.q.root.norm):
        return
    rs = wr.rets()
    ctx.expect(name + ".success", bool(rs), f"{name} can be written", where=wr.q.root.norm)
    for n, e, v in rs:
        g = wr.val.get(n, TOP)
        g = g if g is TOP else wr.S.closed(g)
        r = wr.S.closed(wr.S.lin(v))
        ctx.expect(name + ".bytes", same(g, lens[0]), f"{name}: bytes written ({g!r:.150}) equal rapified_length ({lens[0]!r:.150})", where=wr.q.root.norm)
        ctx.expect(name + ".returned", same(r, lens[0]), f"{name}: the returned count ({r!r:.150}) equals rapified_length ({lens[0]!r:.150})", where=wr.q.root.norm)


def klass(ctx, kind, parent, pcase, pwant, external):
    p = ctx.p
    P = f"arg1\\.parent@Local"
    want = [("arg1", [kind])] + ([(P, [parent])] if kind == "Local" else []) + pwant
    name = f"class.{kind}.{parent}.{pcase}"
    wr = Case(ctx, p.find_impl("Rapify", "Class", "rapify"), want, external).run()
    q, S = wr.q, wr.S
    root = q.root.norm
    # the loop over the entries
    heads = []
    for n, es in q.g.succ.items():
        for ev, m in es:
            for e in flat(ev):
                if e.kind == "call" and NEXT.search(e.name) and re.fullmatch(E, Canon(q).elem(e.args[0])):
                    heads.append((n, e))
    heads = [(n, e) for n, e in heads if any(e2.kind == "call" and wr.size(e2) for e2 in loop_events(q, n))]
    el = {Canon(q).elem(e.args[0]) for n, e in heads}
    if not ctx.expect(name + ".entries", len(heads) == 1, "one loop over all entries of the class", where=root):
        return
    h = heads[0][0]
    el = next(iter(el))
    G = wr.val.get(h, TOP)
    if not ctx.expect(name + ".counted", G is not TOP, "the bytes written before each entry are known to the running count", where=root):
        return
    back = {k: v for k, v in wr.ins[h].items() if reachable(q, h, k[0])}
    fwd = {k: v for k, v in wr.ins[h].items() if k not in back}
    keep = {a for a in G if isinstance(a, Term) and a.op == "phi"}
    incs = {}
    for k, v in back.items():
        d = TOP if v is TOP else expand(S, v, keep).plus(G, -1)
        incs[repr(d)] = d
    X = {"Entry": Lin({f"L({el}.value@Entry)": 1}), "Sub": const(4), "External": Lin(), "Delete": Lin()}[pcase]
    code = Lin({f"len(property_code({el}))": 1})
    step = code.plus(Lin({f"len(name({el}).value)": 1, 1: 1})).plus(X)
    ctx.expect(name + ".entry-size", len(incs) == 1 and next(iter(incs.values())) == step, f"an entry of this kind takes {step!r} bytes (the code writes {list(incs)[:2]})", where=root)
    # the declared length of such an entry
    lnroot = p.find_impl("Rapify", "Property", "rapified_length")
    pw = [(k.replace(E, "arg1"), v) for k, v in pwant]
    cases = [Case(ctx, lnroot, pw + x, external).run() for x in ([[("arg1\\.value@Entry", [k])] for k in ("Str", "Number", "Expression", "Array")] if pcase == "Entry" else [[]])]
    for ln, n, e, v in [(ln, *x) for ln in cases for x in ln.rets()]:
        l = ln.S.closed(ln.S.lin(v))
        ok = l.plus(Lin({"len(property_code(arg1))": -1}))
        if pcase == "Entry":
            good = len(ok) == 1 and list(ok.values()) == [1] and re.fullmatch(r"L\(arg1\.value@Entry(\.0@\w+)?\)", str(next(iter(ok)))) is not None
        else:
            good = ok == X
        ctx.expect(name + ".entry-length", good, f"Property::rapified_length of this kind counts what is written ({l!r:.150})", where=ln.q.root.norm)
    # offsets
    w32 = wr.at(lambda e: e.kind == "call" and WR.search(e.name) is not None and not re.search(r"_[ui]8$", e.name) and wr.sink(e.args[0]))
    inner = [x for x in w32 if reachable(q, x[2], h) and reachable(q, h, x[2])]
    after = [x for x in w32 if not reachable(q, x[2], h)]
    ctx.expect(name + ".offset-width", all(x[0].name.endswith("write_u32") and endian(x[0]) == "le" for x in w32), "offsets are 32-bit little-endian", where=root)
    ctx.expect(name + ".end-offset", len(after) == 1, "one offset after the entries", where=root)
    if len(after) != 1:
        return
    off = S.lin(after[0][0].args[1])
    ph = [a for a in off if isinstance(a, Term) and a.op == "phi" and h == a.a[0]]
    count = Lin({Sigma(el, Lin({f"len(name({el}).value)": 1, f"L({el})": 1, 1: 1})): 1})
    base = Lin({T("param", 3): 1})
    if pcase == "Sub" or ph:
        if not ctx.expect(name + ".offset-var", len(ph) == 1 and off == Lin({ph[0]: 1}), f"the offset after the entries is the running class offset ({off!r:.200})", where=root):
            return
        ph = ph[0]
        vals = q.g.phin[h][ph]
        for k, g in fwd.items():
            st = expand(S, S.lin(vals[k]), set()) if k in vals else TOP
            wantv = TOP if g is TOP else expand(S, g, set()).plus(base).plus(count).plus(const(4))
            ctx.expect(name + ".first-offset", same(st, wantv), f"the first body's offset is the position after all entries and the end offset (starts at {st!r:.200}, expected {wantv!r:.200})", where=root)
        for k in back:
            d = expand(S, S.lin(vals[k]), {ph}).plus(Lin({ph: 1}), -1) if k in vals else TOP
            need = Lin({f"L({el}.0@Class)": 1}) if pcase == "Sub" else Lin()
            ctx.expect(name + ".next-offset", d == need, f"after an entry of this kind the offset advances by {need!r} (code: {d!r:.150})", where=root)
    else:
        g = TOP if after[0][1] is TOP else None
        st = expand(S, off, set())
        f0 = next(iter(fwd.values()))
        ctx.expect(name + ".first-offset", f0 is not TOP and same(st, expand(S, f0, set()).plus(base).plus(count).plus(const(4))), f"without sub-classes the end offset is the position after it ({st!r:.200})", where=root)
    # bodies
    inloop = wr.at(lambda e: e.kind == "call" and e.name.endswith("Rapify::rapify") and reachable(q, h, 0) is not None)
    subs = [x for x in inloop if re.fullmatch(E + r"\.0@Class", q.c(x[0].args[0]))]
    if pcase == "Sub":
        ctx.expect(name + ".offset-written", len(inner) == 1 and S.lin(inner[0][0].args[1]) == Lin({ph: 1}), "the entry of a sub-class holds the running class offset", where=root)
        ctx.expect(name + ".offset-passed", len(subs) == 1 and not wr.sink(subs[0][0].args[1]) and S.lin(subs[0][0].args[2]) == Lin({ph: 1}), "its body is rapified for exactly that offset, into a buffer of its own", where=root)
        push = lambda e: e.kind == "call" and re.search(r"Vec::push$|push_back$|Vec::extend_from_slice$|Vec::append$|Extend::extend$|Write::write_all$", e.name) is not None and not wr.sink(e.args[0]) and wr.body(e.args[1]) is not None
        isnext = lambda e: e.kind == "call" and NEXT.search(e.name) is not None and Canon(q).elem(e.args[0]) == el
        some = lambda e: e.kind == "br" and e.args[1] == "Some" and e.args[0].op == "call" and e.args[0] == heads[0][1].res
        ok = lambda e: e.kind == "ret" and not is_err(e.res)
        tr = q.path_avoiding(push, lambda e: isnext(e) or ok(e), start=some)
        ctx.expect(name + ".body-kept", tr is None, "the body of every sub-class is kept", tr or (), root)
        tr = q.path_avoiding(isnext, push, start=push)
        ctx.expect(name + ".body-once", tr is None, "and kept once", tr or (), root)
        emit = lambda e: e.kind == "call" and re.search(r"Write::write_all$", e.name) is not None and wr.sink(e.args[0]) and wr.body(e.args[1]) is not None
        # one buffer that collects all bodies, or a list of them
        collected = {strip_view(obj(e.args[0], q.g)) for es in q.g.succ.values() for ev, m in es if ev is not None for e in flat(ev) if push(e) and not re.search(r"push(_back)?$", e.name)}
        if len(collected) == 1:
            buf = next(iter(collected))
            mine = lambda t: strip_view(obj(strip_view(t), q.g)) == buf
            touch = [e for es in q.g.succ.values() for ev, m in es if ev is not None for e in flat(ev) if e.kind == "call" and e.args and mine(e.args[0]) and re.search(MUTATE, e.name)]
            ctx.expect(name + ".bodies-buffer", buf.op == "call" and BUFCTOR.search(buf.a[0]) is not None and all(push(e) for e in touch), "the collected bodies are nothing but the bodies", where=root)
            emit = lambda e: e.kind == "call" and re.search(r"Write::write_all$", e.name) is not None and wr.sink(e.args[0]) and mine(e.args[1])
            tr = q.path_avoiding(emit, ok) or q.path_avoiding(lambda e: False, emit, start=emit)
            ctx.expect(name + ".bodies", tr is None, "after the entries the collected bodies are written once", tr or (), root)
            tr = q.path_avoiding(lambda e: e in [x[0] for x in after], emit)
            ctx.expect(name + ".bodies-after", tr is None, "bodies come after the end offset", tr or (), root)
            emit = None
        r, why = (True, ()) if emit is None else every_iteration(q, emit, lambda s: not re.search(r"rev:|^filtered", s) and not PARTIAL.search(re.sub(r"\(.*", "", s)), ok)
        ctx.expect(name + ".bodies", r, "after the entries every kept body is written whole, in order", why[0][2] if why and not r else (), root)
        tr = q.path_avoiding(lambda e: e in [x[0] for x in after], emit) if emit else None
        ctx.expect(name + ".bodies-after", tr is None, "bodies come after the end offset", tr or (), root)
    else:
        ctx.expect(name + ".no-offset", not inner and not subs, "an entry of this kind has no offset and no body", where=root)
    # totals
    ln = Case(ctx, p.find_impl("Rapify", "Class", "rapified_length"), want, external).run()
    lens = [ln.S.closed(ln.S.lin(v)) for n, e, v in ln.rets()]
    if not ctx.expect(name + ".length", len(lens) == 1, "one length", where=ln.q.root.norm):
        return
    hdr = next(iter(fwd.values()))
    hdr = expand(S, hdr, set())
    total = hdr.plus(Lin({Sigma(el, Lin({f"len(name({el}).value)": 1, f"L({el})": 1, 1: 1})): 1})).plus(const(4))
    if pcase == "Sub":
        total = total.plus(Lin({Sigma(el, Lin({f"L({el}.0@Class)": 1})): 1}))
    ctx.expect(name + ".total", same(total, lens[0]), f"rapified_length counts header, entries, end offset and bodies ({lens[0]!r:.300} against {total!r:.300})", where=ln.q.root.norm)
    for n, e, v in wr.rets():
        g = wr.val.get(n, TOP)
        # the returned count is the ghost counter itself
        r = S.lin(v)
        ctx.expect(name + ".returned", g is not TOP and same(S.closed(g), S.closed(r)), f"the returned count is the number of bytes written ({S.closed(r)!r:.200})", where=root)


def reachable(q, a, b):
    c = q.__dict__.setdefault("_reach", {})
    if a not in c:
        seen, st = set(), [a]
        while st:
            n = st.pop()
            for ev, m in q.g.succ.get(n, ()):
                if m not in seen:
                    seen.add(m)
                    st.append(m)
        c[a] = seen
    return b in c[a]


def loop_events(q, h):
    """events on the cycles through a node"""
    for n, es in q.g.succ.items():
        for ev, m in es:
            if reachable(q, h, n) and ev is not None and (m == h or reachable(q, m, h)):
                yield from flat(ev)


def expand(S, l, keep):
    """closed forms for every joined variable except those in keep"""
    r = Lin()
    for a, c in l.items():
        if isinstance(a, Term) and a.op == "phi" and a not in keep:
            vs = {}
            for v in S.edges(a).values():
                if v is a:
                    continue
                x = expand(S, S.lin(v), keep | {a})
                vs[x.key()] = x
            x = None
            if len(vs) == 1 and a not in next(iter(vs.values())):
                x = next(iter(vs.values()))
            if x is None:
                x = S.closed_phi(a, 0) if not keep else Lin({a: 1})
            r = r.plus(x, c)
        else:
            r = r.plus(Lin({a: 1}), c)
    return r


def run(ctx):
    ctx.load(["hemtt_config", "hemtt_common"])
    ctx.rule("ghost counter of bytes emitted = returned count = rapified_length, for each construct and variant; for classes: entry sizes, running class offset = start + sizes of earlier bodies, first offset = position after all entries + 4, bodies kept once and written in order")
    for ty in ("Str", "Expression", "Array"):
        simple(ctx, ty, "", [])
    for v in ("Int32", "Int64", "Float32"):
        simple(ctx, "Number", v, [("arg1", [v])])
    for v in ("Str", "Number", "Array"):
        simple(ctx, "Item", v, [("arg1", [v])])
    for v in ("Str", "Number", "Expression", "Array"):
        simple(ctx, "Value", v, [("arg1", [v])])
    for kind, parent in (("Local", "None"), ("Local", "Some"), ("Root", "None")):
        klass(ctx, kind, parent, "Entry", [(E, ["Entry"])], False)
        klass(ctx, kind, parent, "Sub", [(E, ["Class"]), (E + r"\.0@Class", ["Local"])], False)
        klass(ctx, kind, parent, "External", [(E, ["Class"]), (E + r"\.0@Class", ["External"])], True)
        klass(ctx, kind, parent, "Delete", [(E, ["Delete"])], False)
    ext = Case(ctx, ctx.p.find_impl("Rapify", "Class", "rapified_length"), [("arg1", ["External"])]).run()
    ctx.expect("class.External.body", all(ext.S.lin(v) == Lin() for n, e, v in ext.rets()) and ext.rets(), "an external class has no body", where=ext.q.root.norm)
    # the file
    root = ctx.p.find_impl("Rapify", "Config", "rapify")
    c = Case(ctx, root).run()
    q, S = c.q, c.S

    def lab(e):
        if e.kind == "call" and WR.search(e.name) and c.sink(e.args[0]):
            return e.name.split("_")[-1] + endian(e)
        if e.kind == "call" and re.search(r"Write::write(_all)?$", e.name) and c.sink(e.args[0]):
            b = c.body(e.args[1])
            if b is not None and isroot(b.a[1][0]):
                return "BODY"
            t = e.args[1]
            if t.op in ("bytes", "str") and e.name.endswith("write_all"):
                s = t.a[0]
                return [f"x{(ord(ch) if isinstance(ch, str) else ch):02x}" for ch in s]
            return tobytes(q, t)
        if e.kind == "call" and e.name.endswith("Rapify::rapify") and c.sink(e.args[1]):
            return "BODY" if isroot(e.args[0]) else "other"
        return None

    isroot = lambda t: re.fullmatch(r"Class::Root\(properties:(clone\()?arg1\.0\)*", q.c(t)) is not None or re.fullmatch(r"to_class\(arg1\)", q.c(t)) is not None
    by = lambda s: [f"x{b:02x}" for b in s]
    check_language(ctx, "file", q, lab, seq(*by(b"\0raP"), *by(b"\0\0\0\0\x08\0\0\0"), "u32le", "BODY", *by(b"\0\0\0\0")), "magic, version words, enum offset, root class, trailer")
    bod = c.at(lambda e: lab(e) == "BODY")
    raps = c.at(lambda e: e.kind == "call" and e.name.endswith("Rapify::rapify") and isroot(e.args[0]))
    ctx.expect("file.root-offset", len(bod) == 1 and len(raps) == 1 and bod[0][1] is not TOP and S.closed(S.lin(raps[0][0].args[2])) == S.closed(bod[0][1]), f"the root class is rapified for the position it is written at", where=root.norm)
    w = c.at(lambda e: e.kind == "call" and WR.search(e.name) is not None and c.sink(e.args[0]))
    if bod and w and bod[0][1] is not TOP:
        end = bod[0][1].plus(c.size(bod[0][0]) or Lin())
        v = S.closed(S.lin(w[0][0].args[1]))
        t = Lin({k: x for k, x in v.items()})
        # the length of the buffer counts as the rapified length of the root
        for a in list(t):
            if isinstance(a, str) and a.startswith("len(") and "from_elem" in a:
                t = t.plus(Lin({a: -t[a]})).plus(c.size(bod[0][0]), t[a])
        ctx.expect("file.enum-offset", same(t, end), f"the enum offset is the position of the trailer ({v!r:.200} against {end!r:.200})", where=root.norm)
    ln = Case(ctx, ctx.p.find_impl("Rapify", "Config", "rapified_length")).run()
    for n, e, v in c.rets():
        for n2, e2, v2 in ln.rets():
            l = ln.S.closed(ln.S.lin(v2))
            ctx.expect("file.returned", same(S.closed(S.lin(v)), l) and c.val[n] is not TOP and same(S.closed(c.val[n]), l), f"bytes written, returned count and rapified_length agree ({l!r:.200})", where=root.norm)
