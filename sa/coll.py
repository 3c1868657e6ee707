"""What a list-valued result is guaranteed to contain."""
import re
from engine import *
from lib import *
from lin import *

ALL = object()  # the contents of a value that is never reached


def must(q, t, S=None, seen=None):
    """Texts of what a list certainly contains: 'elem:x' for single elements, 'X' for all
    elements of the list X.  Joins intersect; loops contribute what every iteration adds."""
    S = S or Sizes(q)
    r = _must(q, S, t, seen or {}, 0)
    return set() if r is ALL else r


def both(a, b):
    if a is ALL:
        return b
    if b is ALL:
        return a
    return a | b


def meet(rs):
    rs = [r for r in rs if r is not ALL]
    if not rs:
        return ALL
    out = set(rs[0])
    for r in rs[1:]:
        out &= r
    return out


PASS = re.compile(r"::(collect|into_iter|iter|cloned|copied|into_boxed_slice|from|into|to_vec|clone|flatten|from_iter|into_vec|as_slice|deref|by_ref|peekable|fuse|inspect|rev|sort\w*|unwrap|expect|Ok|Some)$")
GROW = re.compile(r"::(extend|append|extend_from_slice|extend_one)$")
ADD = re.compile(r"::(push|push_back|push_front|insert)$")
KEEP = re.compile(r"::(reserve|shrink_to_fit|sort\w*|reverse|next|iter_mut|as_mut\w*)$")


def _must(q, S, t, seen, d):
    t = S.follow(t)
    if d > 200:
        return set()
    if t in seen:
        # around a loop: what is added is collected by the caller
        return seen[t]
    if t.op == "phi":
        head = t
        sub = dict(seen)
        sub[t] = {("loop", t)}
        rs = []
        for v in S.edges(t).values():
            if v is t:
                continue
            r = _must(q, S, v, sub, d + 1)
            rs.append(r)
        back = [r for r in rs if r is not ALL and ("loop", t) in r]
        fwd = [r for r in rs if r is ALL or ("loop", t) not in r]
        base = meet(fwd)
        if back:
            add = meet([r - {("loop", t)} for r in back])
            add = set() if add is ALL else {a for a in add if isinstance(a, tuple) or "[*]" in a}
            base = both(base, add)
        return base
    if t.op == "out" and t.a[0].op in ("call", "pure"):
        c, i = t.a
        n = c.a[0]
        base = _must(q, S, c.a[1][i], seen, d + 1)
        if i == 0 and GROW.search(n) and len(c.a[1]) > 1:
            return both(base, _must(q, S, c.a[1][1], seen, d + 1))
        if i == 1 and n.endswith("::append"):
            return set()
        if i == 0 and ADD.search(n):
            return both(base, {"elem:" + q.c(c.a[1][-1])})
        if KEEP.search(n):
            return base
        return set()
    if t.op in ("upd", "with"):
        return _must(q, S, t.a[0], seen, d + 1)
    if t.op == "cast":
        return _must(q, S, t.a[1], seen, d + 1)
    if t.op == "fld" and t.a[2] in ("Ok", "Some") and t.a[0].op in ("call", "phi", "agg"):
        return {q.c(t)}
    if t.op == "agg" and t.a[0] in ("arr",):
        return {"elem:" + q.c(x) for x in t.a[3]}
    if t.op in ("call", "pure"):
        n = t.a[0]
        last = n.split("::")[-1]
        if last == "chain":
            return both(_must(q, S, t.a[1][0], seen, d + 1), _must(q, S, t.a[1][1], seen, d + 1))
        if last == "flat_map":
            rs = q.g.cbret.get(t)
            if rs:
                return meet([_must(q, S, r, seen, d + 1) for r in rs])
        if last == "map" and "Iterator" in n:
            rs = q.g.cbret.get(t)
            if rs:
                return meet([{"elem:" + q.c(r)} for r in rs])
        if last in ("new", "with_capacity", "default") and re.search(r"(Vec|VecDeque|HashMap|HashSet|BTree\w+|IndexMap)::", n):
            return set()
        if last == "concat" and t.a[1]:
            return _must(q, S, t.a[1][0], seen, d + 1)
        if PASS.search(n) and t.a[1]:
            return _must(q, S, t.a[1][0], seen, d + 1)
    if t.op == "static":
        return {q.c(t)}
    return {q.c(t)}


def leaves_early(q, elem):
    """a path out of a loop over elem that skips the rest of its input, or None"""
    for k, head, el, ev in loop_heads(q):
        if not elem(el) or k[0] != "n":
            continue

        def gone(x, head=head, k=k):
            return head(x) or (x.kind == "br" and x.args[0].op == "call" and x.args[0].a[2] == k[1] and x.args[1] == "None")

        tr = q.path_avoiding(gone, lambda e: e.kind == "ret", start=head)
        if tr is not None:
            return tr
    return None


def asbit(v):
    return bool(v.a[0]) if v.op == "int" else None


def decides(q, t, cls, texts=(), entry=None, value=None):
    """Does the boolean t equal a condition?  cls(br event) -> True when the branch implies the
    condition, False when it implies its negation, None otherwise; texts: accepted expressions.
    value(term): the truth a constant stands for (booleans unless given)."""
    S = Sizes(q)
    value = value or asbit
    t = S.follow(t)
    if any(re.fullmatch(x, q.c(t)) for x in texts):
        return True
    if t.op == "un" and t.a[0] == "Not" and S.follow(t.a[1]).op == "phi" and not texts and asbit is value:
        return decides(q, t.a[1], lambda e: {True: False, False: True}.get(cls(e)), texts, entry, value)
    if t.op != "phi":
        return t.op != "int" and says(cls, t)
    for (n, i), v in S.edges(t).items():
        if v is t:
            continue
        v = S.follow(v)
        if value(v) is not None:
            if _last(q, n, i, cls, entry) != {value(v)}:
                return False
        elif v.op == "phi":
            if not decides(q, v, cls, texts, entry, value):
                return False
        elif not any(re.fullmatch(x, q.c(v)) for x in texts) and not says(cls, v):
            return False
    return True


def decided(q, call, cls, texts=(), value=None):
    """does the closure of this call return exactly the truth of the condition?"""
    val = value or asbit
    entry = lambda e: e.kind == "cbin" and e.res is not None and e.res.id == call.id
    rs = q.g.cbsite.get(call, {})
    for (n, i), r in rs.items():
        r = Sizes(q).follow(r)
        if val(r) is not None:
            if _last(q, n, i, cls, entry) != {val(r)}:
                return False
        elif not decides(q, r, cls, texts, entry, val):
            return False
    return bool(rs)


def says(cls, t):
    """does the truth of t establish the condition?"""
    if cls(asif(t)) is True:
        return True
    b = True
    while t.op == "un" and t.a[0] == "Not":
        t, b = t.a[1], not b
    return cls(asif(t, b)) is True


class asif:
    """a value seen as the branch it would cause when true"""

    def __init__(self, t, v=True):
        self.kind, self.args, self.raw, self.res, self.name, self.line = "br", (t, v), "bool", None, "", 0


def _last(q, n, i, cls, entry):
    """classified branches last passed before the i-th edge out of node n"""
    if n == "root":
        return {None}
    pred = {}
    for a, es in q.g.succ.items():
        for j, (ev, m) in enumerate(es):
            if ev is not None or m != -1:
                pred.setdefault(m, []).append((a, ev))
    out = set()
    seen = set()

    def scan(ev):
        for e in reversed(flat(ev)):
            if e.kind == "br":
                c = cls(e)
                if c is not None:
                    return c
            if entry is not None and entry(e):
                return "entry"
        return None

    r = scan(q.g.succ[n][i][0])
    if r is not None:
        return {r}
    st = [n]
    while st:
        a = st.pop()
        if a in seen:
            continue
        seen.add(a)
        if a == 0:
            out.add(None)
        for b, ev in pred.get(a, ()):
            r = scan(ev)
            if r is not None:
                out.add(r)
            else:
                st.append(b)
    return out


def selects(q, t, elem, cls, texts=()):
    """Does the list t hold exactly the elements elem that satisfy the condition, in order?"""
    S = Sizes(q)
    t = S.follow(t)
    while t.op in ("call", "pure") and t.a[1] and PASS.search(t.a[0]) and not t.a[0].endswith(("rev", "flatten")) and "sort" not in t.a[0]:
        t = S.follow(t.a[1][0])
    if t.op == "out" and t.a[1] == 0 and t.a[0].a[0].endswith("Vec::retain"):
        t = t.a[0]
    if t.op == "call" and t.a[0].endswith(("::filter", "Vec::retain")):
        return Canon(q).elem(t.a[1][0]) == elem and decided(q, t, cls, texts)
    o = obj(t, q.g)
    if not (o.op == "call" and BUF.search(o.a[0])):
        return False
    push = lambda e: e.kind == "call" and re.search(r"::(push|push_back)$", e.name) is not None and obj(e.args[0], q.g) == o
    touch = [e for _, es, _ in q.edges for e in es if e.kind == "call" and e.args and obj(e.args[0], q.g) == o and re.search(r"::(push\w*|insert|remove|clear|truncate|retain\w*|pop\w*|swap\w*|sort\w*|reverse|dedup\w*|extend\w*|append|drain)$", e.name)]
    if not touch or not all(push(e) and q.c(e.args[1]) == elem for e in touch):
        return False
    heads = [(k, h, ev) for k, h, el, ev in loop_heads(q) if el == elem and k[0] == "n"]
    if len(heads) != 1:
        return False
    k, head, ev = heads[0]
    yes = lambda e: e.kind == "br" and cls(e) is True
    no = lambda e: e.kind == "br" and cls(e) is False
    some = lambda e: e.kind == "br" and e.args[0].op == "call" and e.args[0].a[2] == k[1] and e.args[1] == "Some"
    ret = lambda e: e.kind == "ret"
    if q.path_avoiding(yes, push, start=some) is not None:
        return False
    if q.path_avoiding(push, lambda e: head(e) or ret(e), start=yes) is not None:
        return False
    if q.path_avoiding(head, push, start=push) is not None:
        return False
    return leaves_early(q, lambda el: el == elem) is None


BUF = re.compile(r"(Vec|VecDeque)::(new|with_capacity|default)$|Default::default$")


def reads(q, t, name, S=None, seen=()):
    """the terms a field of a value can be, through updates and joins"""
    S = S or Sizes(q)
    t = S.follow(t)
    if t in seen:
        return set()
    seen = seen + (t,)
    if t.op == "phi":
        out = set()
        for v in S.edges(t).values():
            if v is not t:
                out |= reads(q, v, name, S, seen)
        return out
    if t.op == "with":
        if t.a[1] == name:
            return {S.follow(t.a[3])}
        return reads(q, t.a[0], name, S, seen)
    if t.op == "agg" and t.a[0] not in ("arr", "closure"):
        names = t.a[2] or [str(i) for i in range(len(t.a[3]))]
        for n, v in zip(names, t.a[3]):
            if n == name:
                return {S.follow(v)}
    if t.op == "fld" and t.a[0].op in ("phi", "with", "agg"):
        vs = reads(q, t.a[0], t.a[1], S, seen)
        if vs and vs != {t}:
            out = set()
            for v in vs:
                out |= reads(q, v, name, S, seen)
            return out
    return {T("fld", t, name, "")}


def field(q, t, name):
    """text of a field of a value (all possibilities)"""
    vs = sorted({q.c(v) for v in reads(q, t, name)})
    return vs[0] if len(vs) == 1 else "{" + " | ".join(vs) + "}"


def option(v):
    """Some / None as a truth value"""
    if v.op == "agg" and v.a[1] in ("Some", "None"):
        return v.a[1] == "Some"
    return None


def chosen(q, t, cls):
    """texts of the elements x for which a filter_map's closure returns Some(x), provided it does
    so exactly when the condition holds; None when that is not established"""
    S = Sizes(q)
    entry = lambda e: e.kind == "cbin" and e.res is not None and e.res.id == t.id
    out = set()
    st = [(k, v) for k, v in q.g.cbsite.get(t, {}).items()]
    n = 0
    while st and n < 200:
        n += 1
        (node, i), r = st.pop()
        r = S.follow(r)
        if r.op == "phi":
            st.extend(S.edges(r).items())
        elif option(r) is not None:
            if _last(q, node, i, cls, entry) != {option(r)}:
                return None
            if option(r):
                out.add(q.c(S.follow(r.a[3][0])))
        elif r.op in ("call", "pure") and re.search(r"bool.*::then(_some)?$", r.a[0]):
            if cls(asif(r.a[1][0])) is not True:
                return None
            vs = [r.a[1][1]] if r.a[0].endswith("then_some") else q.g.cbret.get(r, ())
            out |= {q.c(S.follow(v)) for v in vs}
        else:
            return None
    return out or None


def merges(q, base, src):
    """every path to the return adds all entries of the map src to the map base (regexes)"""
    ext = lambda e: e.kind == "call" and GROW.search(e.name) and re.fullmatch(base, q.c(e.args[0])) and re.fullmatch(rf"({src})(\[\*\])?|map\(\(({src})\[\*\]\.0, ({src})\[\*\]\.1\)\)", q.c(e.args[1]))
    ret = lambda e: e.kind == "ret" and not (e.res.op == "agg" and e.res.a[1] == "Err")
    if any(ext(e) for e in q.events()) and q.path_avoiding(ext, ret) is None:
        return True
    put = lambda e: e.kind == "call" and e.name.endswith("::insert") and len(e.args) == 3 and re.fullmatch(rf"({src})\[\*\]\.0", q.c(e.args[1])) and re.fullmatch(rf"({src})\[\*\]\.1", q.c(e.args[2])) and re.search(base, q.c(e.args[0]))
    r, _ = every_iteration(q, put, lambda el: re.fullmatch(rf"({src})\[\*\]", el) is not None, ret)
    return bool(r)


def template(raw):
    """literal pieces and placeholders of a format template (None = placeholder with no options)"""
    out, i = [], 0
    b = [ord(x) for x in raw]
    while i < len(b) and b[i] != 0:
        if b[i] == 0xC0:
            out.append(None)
            i += 1
        elif b[i] < 0x80:
            out.append(bytes(b[i + 1:i + 1 + b[i]]).decode("utf-8", "replace"))
            i += 1 + b[i]
        elif b[i] == 0x80 and i + 2 < len(b):
            n = b[i + 1] | b[i + 2] << 8
            out.append(bytes(b[i + 3:i + 3 + n]).decode("utf-8", "replace"))
            i += 3 + n
        else:
            return None
    return out


def text(q, t, depth=0, env=None):
    """A string value as literal text with «value» for the parts that are not literal; env gives joined
    values theirs on the path taken."""
    S = Sizes(q)
    t = S.follow(t)
    while env and t in env and depth < 40:
        t, depth = S.follow(env[t]), depth + 1
    if depth > 40:
        return "«?»"
    sub = lambda x: text(q, x, depth + 1, env)
    if t.op == "str":
        return t.a[0]
    if t.op == "int" and t.a[1] == "char":
        return chr(t.a[0])
    if t.op == "ref" and False:
        return None
    if t.op in ("call", "pure"):
        n = t.a[0].split("::")[-1]
        a = t.a[1]
        if n in ("to_string", "to_owned", "clone", "deref", "as_str", "into", "from", "as_ref", "borrow", "must_use", "into_string", "into_boxed_str", "new_display") and len(a) == 1 and (n != "as_str" or "String" in t.a[0]):
            return sub(a[0])
        if n == "format" and len(a) == 1:
            x = S.follow(a[0])
            if x.op in ("call", "pure") and x.a[0].endswith("Arguments::from_str"):
                return sub(x.a[1][0])
            if x.op in ("call", "pure") and x.a[0].endswith("Arguments::new") and len(x.a[1]) == 2:
                tp, ar = S.follow(x.a[1][0]), S.follow(x.a[1][1])
                if tp.op == "bytes" and ar.op == "agg":
                    ps = template(tp.a[0])
                    if ps is not None and ps.count(None) == len(ar.a[3]):
                        it = iter(ar.a[3])
                        return "".join(p if p is not None else sub(next(it)) for p in ps)
        if n == "add" and len(a) == 2:
            return sub(a[0]) + sub(a[1])
        if n == "concat" and len(a) == 1:
            x = S.follow(a[0])
            if x.op == "agg":
                return "".join(sub(y) for y in x.a[3])
        if n == "new" and t.a[0].endswith("Arguments::new") and len(a) == 2:
            tp, ar = S.follow(a[0]), S.follow(a[1])
            if tp.op == "bytes" and ar.op == "agg":
                ps = template(tp.a[0])
                if ps is not None and ps.count(None) == len(ar.a[3]):
                    it = iter(ar.a[3])
                    return "".join(p if p is not None else sub(next(it)) for p in ps)
        if n == "from_str" and t.a[0].endswith("Arguments::from_str"):
            return sub(a[0])
    if t.op == "out" and t.a[0].op == "call" and t.a[0].a[0].split("::")[-1] in ("push_str", "push", "write_str", "write_char", "write_fmt") and t.a[1] == 0:
        return sub(t.a[0].a[1][0]) + sub(t.a[0].a[1][1])
    if t.op in ("call",) and t.a[0].endswith("String::new"):
        return ""
    return "«" + q.c(t) + "»"
