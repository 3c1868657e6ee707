"""Truth of branch conditions under assumptions; quantifiers over collections."""
import re
from engine import *
from lib import *
from lin import *
from coll import *
from coll import _last

CMP = {("pure", "eq"): True, ("pure", "ne"): False, ("bin", "Eq"): True, ("bin", "Ne"): False}


def equality(t):
    """(x, y, equal when true) of a comparison, or None"""
    if t.op == "pure" and t.a[0] in ("eq", "ne"):
        return t.a[1][0], t.a[1][1], t.a[0] == "eq"
    if t.op == "bin" and t.a[0] in ("Eq", "Ne"):
        return t.a[1], t.a[2], t.a[0] == "Eq"
    return None


def atom(q, e):
    """(canonical text, truth) of a boolean branch, with negations moved into the truth"""
    t, v = e.args[0], e.args[1]
    if not isinstance(v, bool):
        return q.c(t), v
    while t.op == "un" and t.a[0] == "Not":
        t, v = t.a[1], not v
    e = equality(t)
    if e and not e[2]:
        a, b = q.c(e[0]), q.c(e[1])
        return (f"({a} Eq {b})" if t.op == "bin" else f"eq({a}, {b})"), not v
    return q.c(t), v


class Truth:
    """known(term) -> bool | None: assumptions about boolean terms."""

    def __init__(self, q, known=None, want=None):
        a = getattr(q, "assumed", None)
        if known is None and a:
            known, want = a[0](q), want or a[1]
        self.q, self.known, self.want = q, known or (lambda t: None), want or ()
        self.S = Sizes(q)
        self.memo = {}
        self.busy = set()

    def simp(self, t):
        """(term, polarity): negations and comparisons with known truth values removed"""
        v = True
        for _ in range(40):
            t = self.S.follow(t)
            if t.op == "un" and t.a[0] == "Not":
                t, v = t.a[1], not v
                continue
            e = equality(t)
            if e or (t.op == "bin" and t.a[0] == "BitXor"):
                x, y, k = e or (t.a[1], t.a[2], False)
                b = self.val(y)
                if b is not None and self.isbool(y):
                    t, v = x, v if k == b else not v
                    continue
                b = self.val(x)
                if b is not None and self.isbool(x):
                    t, v = y, v if k == b else not v
                    continue
            break
        return t, v

    def isbool(self, t):
        t = self.S.follow(t)
        if t.op == "int":
            return t.a[1] == "bool"
        return t.op in ("un", "bin") or t.op in ("pure", "call") or t.op == "phi" or t.op == "param"

    def val(self, t, d=0):
        t = self.S.follow(t)
        if t in self.memo:
            return self.memo[t]
        if t in self.busy or d > 60:
            return None
        self.busy.add(t)
        r = self._val(t, d)
        self.busy.discard(t)
        self.memo[t] = r
        return r

    def _val(self, t, d):
        k = self.known(t)
        if k is not None:
            return k
        val = lambda x: self.val(x, d + 1)
        if t.op == "int":
            return bool(t.a[0])
        if t.op == "un" and t.a[0] == "Not":
            v = val(t.a[1])
            return None if v is None else not v
        if t.op == "bin" and t.a[0] in ("BitAnd", "BitOr"):
            x, y = val(t.a[1]), val(t.a[2])
            stop = t.a[0] == "BitOr"
            if x is stop or y is stop:
                return stop
            return None if x is None or y is None else not stop
        e = equality(t)
        if e and t.op == "bin" and "discr" in (e[0].op, e[1].op):
            x, y = e[:2] if e[0].op == "discr" else (e[1], e[0])
            ad = self.q.p.adts.get(x.a[1])
            if ad and y.op == "int":
                vs = self.variants(x.a[0])
                ks = {d == y.a[0] for n, d, _ in ad["vs"] if vs and n in vs}
                if len(ks) == 1:
                    return ks.pop() is e[2]
            return None
        if e or (t.op == "bin" and t.a[0] == "BitXor"):
            x, y, k = e or (t.a[1], t.a[2], False)
            if self.isbool(x) and self.isbool(y):
                a, b = val(x), val(y)
                if a is not None and b is not None:
                    return (a == b) is k
            if e:
                a, b = self.strings(x), self.strings(y)
                if a and b and (not a & b or len(a | b) == 1):
                    return bool(a & b) is k
            return None
        if t.op == "phi":
            rs = {val(v) for v in self.S.edges(t).values() if v is not t}
            return rs.pop() if len(rs) == 1 else None
        if t.op in ("call", "pure"):
            n = t.a[0].split("::")[-1]
            if n == "is_empty" and len(t.a[1]) == 1:
                ss = self.strings(t.a[1][0])
                if ss and len({x == "" for x in ss}) == 1:
                    return "" in ss
            if n in ("all", "any"):
                rs = {val(r) for r in self.q.g.cbret.get(t, ())}
                if rs == {n == "all"}:
                    return n == "all"
            if n in ("is_some", "is_none", "is_ok", "is_err") and t.a[1]:
                vs = self.variants(t.a[1][0])
                if vs and len(vs) == 1:
                    v = next(iter(vs))
                    if v in ("Some", "None", "Ok", "Err"):
                        return {"is_some": v == "Some", "is_none": v == "None", "is_ok": v == "Ok", "is_err": v == "Err"}[n]
        return None

    def strings(self, t, d=0):
        """the texts a value can be, or None when not all are literal"""
        t = self.S.follow(t)
        if t.op == "str":
            return {t.a[0]}
        if t.op == "call" and t.a[0] == "alloc::string::String::new":
            return {""}
        if t.op == "phi" and d < 20:
            out = set()
            for v in self.S.edges(t).values():
                if v is t:
                    continue
                r = self.strings(v, d + 1)
                if r is None:
                    return None
                out |= r
            return out
        return None

    def variants(self, t, d=0):
        """the variants a value can have, or None when unknown"""
        t = self.S.follow(t)
        if d > 30:
            return None
        if t.op == "agg" and t.a[1]:
            return {t.a[1]}
        if t.op == "phi":
            out = set()
            for v in self.S.edges(t).values():
                if v is t:
                    continue
                r = self.variants(v, d + 1)
                if r is None:
                    return None
                out |= r
            return out or None  # no edge is known
        if self.want and t.op in ("call", "pure", "fld", "param"):
            s = self.q.c(t)
            for p, vs in self.want:
                if vs and isinstance(vs[0], str) and p(s):
                    return set(vs)
        return None

    def dead(self, e):
        """the branch contradicts what is known"""
        if e.kind != "br" or not isinstance(e.args[0], Term):
            return False
        v = e.args[1]
        if e.raw == "bool":
            k = self.val(e.args[0])
            return k is not None and str(v) != str(k)
        if e.raw == "variant" and isinstance(v, str) and v != "?":
            vs = self.variants(e.args[0])
            return vs is not None and not vs & set(v.split("|"))
        return False


def settle(q, want=(), known=None, rounds=6, dead=None):
    """The query on only the paths consistent with the wanted variants (want: [(regex on canonical
    text, allowed)]) and the known truths, and with what follows from them. dead: query -> predicate
    on events that do not happen."""
    w = [(lambda s, k=k: re.fullmatch(k, s) is not None, vs) for k, vs in want]
    bw = [(p, vs[0]) for p, vs in w if len(vs) == 1 and isinstance(vs[0], bool)]

    def wants(q):
        """what is wanted of a boolean, also where it is not branched on"""
        k0 = known(q) if known else None

        def kn(t):
            if k0:
                v = k0(t)
                if v is not None:
                    return v
            if not bw or t.op in ("int", "phi"):
                return None
            ss = [(q.c(t), True)]
            e = equality(t)
            if e:
                o = ("eq({}, {})", "({} Eq {})")[t.op == "bin"]
                a, b = q.c(e[0]), q.c(e[1])
                ss = [(o.format(a, b), e[2]), (o.format(b, a), e[2])] + ss
            for p, v in bw:
                for s, pol in ss:
                    if p(s):
                        return v if pol else not v
            return None
        return kn
    size = None
    for _ in range(rounds):
        q = thread(q)
        v = variant_dead(q, w) if w else (lambda e: False)
        T_ = Truth(q, wants(q), w)
        x = dead(q) if dead else (lambda e: False)
        q = restrict(q, lambda e: v(e) or x(e) or T_.dead(e))
        n = len(q.edges)
        if n == size:
            break
        size = n
    q.assumed = (wants, w)
    return q


def forall(q, t, elem, cls, S=None, depth=0):
    """Does the boolean t hold exactly when every element (canonical text elem) satisfies the
    condition?  cls(branch event) -> True / False when the branch establishes the condition or its
    negation for an element."""
    return _quant(q, t, elem, cls, True, depth)


def _quant(q, t, elem, cls, every, depth=0):
    """every: t == all(cond); otherwise t == any(not cond), i.e. the negation"""
    S = Sizes(q)
    t = S.follow(t)
    if depth > 6:
        return False
    if t.op == "un" and t.a[0] == "Not":
        return _quant(q, t.a[1], elem, cls, not every, depth + 1)
    e = equality(t)
    if e:
        x, y, k = e
        for a, b in ((x, y), (y, x)):
            if S.follow(b).op == "int":
                z = S.follow(b).a[0]
                a = S.follow(a)
                if a.op == "discr":
                    return _quant_none(q, a.a[0], elem, cls) and every is ((z == 0) is k)
                if a.op in ("call", "pure") and a.a[0].endswith("::count") and z == 0:
                    return _quant_none(q, a.a[1][0], elem, cls) and every is k
                return _quant(q, a, elem, cls, every if bool(z) is k else not every, depth + 1)
        return False
    over = lambda b: elem == Canon(q).elem(b).replace("rev:", "")
    neg = lambda ev: {True: False, False: True}.get(cls(ev))
    if t.op in ("call", "pure"):
        n = t.a[0].split("::")[-1]
        if n == "all" and over(t.a[1][0]):
            return every and decided(q, t, cls)
        if n == "any" and over(t.a[1][0]):
            return not every and decided(q, t, neg)
        if n in ("is_none", "is_some"):
            return _quant_none(q, t.a[1][0], elem, cls) and every is (n == "is_none")
        return False
    if t.op != "phi":
        return False
    # a loop (or a shortcut before one)
    return _edges(q, [(k, v) for k, v in S.edges(t).items() if v is not t], elem, cls, every, depth)


def forall_result(q, elem, cls):
    """forall for the boolean a function returns"""
    q = thread(q)
    es = [((n, i), e.res) for n, out in q.g.succ.items() for i, (ev, m) in enumerate(out) if ev is not None for e in flat(ev) if e.kind == "ret"]
    return bool(es) and _edges(q, es, elem, cls, True, 0)


def _edges(q, es, elem, cls, every, depth):
    if not es:
        return False
    S = Sizes(q)
    for (n, i), v in es:
        v = S.follow(v)
        if v.op == "int":
            last = _last(q, n, i, lambda ev: seen(q, ev, elem, cls), None)
            if bool(v.a[0]) is every:
                # all elements were seen to satisfy it, or there are none
                if not last <= {"exhausted", "empty"}:
                    return False
            elif last != {False}:
                return False
        elif not _quant(q, v, elem, cls, every, depth + 1):
            return False
    return leaves_unless(q, elem, cls)


def seen(q, ev, elem, cls):
    """what a branch tells about the elements: cls, 'exhausted' at the end of the loop, 'empty'"""
    if ev.kind != "br" or not isinstance(ev.args[0], Term):
        return None
    c = cls(ev)
    if c is not None:
        return c
    t = ev.args[0]
    if t.op == "call" and NEXT.search(t.a[0]) and Canon(q).elem(t.a[1][0]).replace("rev:", "") == elem:
        return "exhausted" if ev.args[1] == "None" else "next"
    if t.op in ("call", "pure") and t.a[0].endswith("::is_empty") and q.c(t.a[1][0]) + "[*]" == elem:
        return "empty" if str(ev.args[1]) == "True" else None
    return None


def leaves_unless(q, elem, cls):
    """every loop over elem goes on to the next element unless the condition failed, and looks at
    each element"""
    for k, head, el, ev in loop_heads(q):
        if el.replace("rev:", "") != elem or k[0] != "n":
            continue
        bad = lambda x: x.kind == "br" and cls(x) is False
        good = lambda x: x.kind == "br" and cls(x) is True
        gone = lambda x, head=head, k=k: head(x) or bad(x) or (x.kind == "br" and x.args[0].op == "call" and x.args[0].a[2] == k[1] and x.args[1] == "None")
        if q.path_avoiding(gone, lambda e: e.kind == "ret", start=head) is not None:
            return False
        some = lambda x, k=k: x.kind == "br" and x.args[0].op == "call" and x.args[0].a[2] == k[1] and x.args[1] == "Some"
        if q.path_avoiding(lambda x: good(x) or bad(x), head, start=some) is not None:
            return False
    return True


def _quant_none(q, t, elem, cls):
    """the iterator (or search result) t has something exactly when an element fails the condition"""
    S = Sizes(q)
    t = S.follow(t)
    neg = lambda ev: {True: False, False: True}.get(cls(ev))
    if t.op in ("call", "pure"):
        n = t.a[0].split("::")[-1]
        if n in ("find", "position", "filter"):
            return elem == Canon(q).elem(t.a[1][0]).replace("rev:", "") and decided(q, t, neg)
        if n in ("next", "last", "cloned", "copied", "iter", "into_iter"):
            return _quant_none(q, t.a[1][0], elem, cls)
    return False


class Case:
    """values of enums under assumptions. of(term) -> variant name or None; order: variants in
    order of their discriminants."""

    def __init__(self, q, order, of):
        self.q, self.order, self.of = q, list(order), of
        self.S = Sizes(q)

    def variant(self, t, d=0):
        t = self.S.follow(t)
        if d > 20:
            return None
        v = self.of(t)
        if v is not None:
            return v
        if t.op == "agg" and t.a[1] in self.order:
            return t.a[1]
        if t.op == "phi":
            vs = {self.variant(v, d + 1) for v in self.S.edges(t).values() if v is not t}
            return vs.pop() if len(vs) == 1 else None
        if t.op in ("call", "pure") and t.a[1]:
            n = t.a[0].split("::")[-1]
            if n in ("clone", "copied", "deref", "to_owned", "borrow"):
                return self.variant(t.a[1][0], d + 1)
            if n in ("max", "min") and len(t.a[1]) == 2:
                vs = [self.variant(x, d + 1) for x in t.a[1]]
                if None not in vs:
                    return (max if n == "max" else min)(vs, key=self.order.index)
        return None

    def num(self, t):
        t = self.S.follow(t)
        if t.op == "int":
            return t.a[0]
        if t.op == "cast":
            return self.num(t.a[1])
        if t.op == "discr":
            v = self.variant(t.a[0])
            return self.order.index(v) if v in self.order else None
        v = self.variant(t)
        return self.order.index(v) if v in self.order else None

    def known(self, t):
        """truth of a comparison of such values"""
        if t.op in ("un", "int", "phi"):
            return None
        r = relation(t, True)
        if not r or r[1] is None:
            return None
        x, y = self.num(r[0]), self.num(r[2])
        if x is None or y is None:
            return None
        return {"==": x == y, "!=": x != y, "<": x < y, "<=": x <= y, ">": x > y, ">=": x >= y}.get(r[1])


def subset(q, t, src, known=None, depth=0):
    """which elements of the collection src (canonical text) the collection t holds on the paths of
    q: "all", "none" or None when unclear"""
    S = Sizes(q)
    T_ = Truth(q, known)
    t = S.follow(t)
    if depth > 12:
        return None
    if q.c(t) == src:
        return "all"
    sub = lambda x: subset(q, x, src, known, depth + 1)
    if t.op == "out" and t.a[0].op == "call":
        c, i = t.a
        n = c.a[0].split("::")[-1]
        if i == 0 and n in ("retain", "retain_mut"):
            vs = {T_.val(r) for r in q.g.cbret.get(c, ())}
            return sub(c.a[1][0]) if vs == {True} else "none" if vs == {False} else None
        if i == 0 and n in ("iter", "iter_mut", "reserve", "get", "len"):
            return sub(c.a[1][0])
        if i == 0 and n in ("clear", "drain"):
            return "none"
        if i == 0 and n in ("extend", "append"):
            a, b = sub(c.a[1][0]), sub(c.a[1][1])
            return b if a == "none" else a if b == "none" else None
        o = obj(t, q.g)
        if o is not t and o.op == "call" and BUF.search(o.a[0]):
            return sub(o)
        return None
    if t.op == "phi":
        o = obj(t, q.g)
        if o is not t:
            return sub(o)
        vs = {sub(v) for v in S.edges(t).values() if v is not t}
        return vs.pop() if len(vs) == 1 else None
    if t.op in ("call", "pure"):
        n = t.a[0].split("::")[-1]
        if re.search(r"(Vec|VecDeque|HashMap|HashSet|BTree\w+|IndexMap)::(new|with_capacity)$|Default::default$|::default$", t.a[0]):
            mine = lambda e: e.kind == "call" and e.args and type(e.args[0]) is Term and obj(e.args[0], q.g) == t
            put = lambda e: mine(e) and re.search(r"::(insert|push|push_back)$", e.name) is not None
            if not any(mine(e) and re.search(r"::(insert|push\w*|extend|append|remove|clear|retain|entry)$", e.name) for e in q.events()):
                return "none"
            if any(mine(e) and re.search(r"::(extend|append|remove|clear|retain|entry)$", e.name) for e in q.events()):
                return None
            ok = all([q.c(a) for a in e.args[1:]] in ([src + "[*].0", src + "[*].1"], [src + "[*]"]) for e in q.events(put))
            r, why = every_iteration(q, put, lambda el: el == src + "[*]")
            return "all" if ok and r else None
        if n == "filter":
            vs = {T_.val(r) for r in q.g.cbret.get(t, ())}
            return sub(t.a[1][0]) if vs == {True} else "none" if vs == {False} else None
        if n in ("filter_map", "map"):
            rs = [S.follow(r) for r in q.g.cbret.get(t, ())]
            if n == "filter_map":
                vs = {tuple(sorted(T_.variants(r) or ())) for r in rs}
                if vs == {("None",)}:
                    return "none"
                if vs != {("Some",)}:
                    return None
                rs = [r.a[3][0] if r.op == "agg" else r for r in rs]
            el = Canon(q).elem(t.a[1][0])
            whole = {f"({src}[*].0, {src}[*].1)", src + "[*]", f"({src}[*]#0, {src}[*]#1)", el, f"({el}.0, {el}.1)"}
            return sub(t.a[1][0]) if all(q.c(r) in whole for r in rs) else None
        if t.a[1] and n in ("collect", "clone", "iter", "into_iter", "cloned", "copied", "from_iter", "to_owned", "drain"):
            return sub(t.a[1][0])
    return None


CHARS = {
    "is_ascii_digit": lambda c: c in "0123456789",
    "is_numeric": lambda c: c in "0123456789",
    "is_ascii_hexdigit": lambda c: c in "0123456789abcdefABCDEF",
    "is_ascii_alphabetic": lambda c: c.isalpha(),
    "is_alphabetic": lambda c: c.isalpha(),
    "is_ascii_alphanumeric": lambda c: c.isalnum(),
    "is_alphanumeric": lambda c: c.isalnum(),
    "is_ascii_uppercase": lambda c: c.isupper(),
    "is_ascii_lowercase": lambda c: c.islower(),
    "is_whitespace": lambda c: c in " \t\n\x0b\x0c\r",
    "is_ascii_whitespace": lambda c: c in " \t\n\x0c\r",
}


class Concrete:
    """Values of expressions when some quantities (a canonical text each) have given values."""

    def __init__(self, q, given):
        self.q, self.given = q, [(re.compile(k), v) for k, v in given.items()]
        self.S = Sizes(q)
        self.memo = {}

    def val(self, t, d=0):
        if t in self.memo:
            return self.memo[t]
        self.memo[t] = None
        r = self._val(t, d) if d < 60 else None
        self.memo[t] = r
        return r

    def _val(self, t, d):
        t = self.S.follow(t)
        if t.op == "int":
            return t.a[0]
        if t.op == "phi":
            rs = {self.val(v, d + 1) for v in self.S.edges(t).values() if v is not t}
            return rs.pop() if len(rs) == 1 else None
        if t.op in ("fld", "idx", "call", "pure", "param", "cast"):
            s = self.q.c(t)
            for k, v in self.given:
                if k.fullmatch(s):
                    return v
        if t.op == "fld" and t.a[1] == "0" and t.a[0].op == "bin" and t.a[0].a[0].endswith("WithOverflow"):
            t = t.a[0]
        if t.op == "un":
            v = self.val(t.a[1], d + 1)
            return None if v is None or t.a[0] != "Not" else 1 - v if v in (0, 1) else None
        if t.op == "cast":
            v = self.val(t.a[1], d + 1)
            m = re.fullmatch(r"[ui](8|16|32|64|128|size)", t.a[3])
            if v is None or not m:
                return None
            w = int(m.group(1)) if m.group(1) != "size" else 64
            v &= (1 << w) - 1
            return v - (1 << w) if t.a[3][0] == "i" and v >> (w - 1) else v
        if t.op == "bin":
            a, b = self.val(t.a[1], d + 1), self.val(t.a[2], d + 1)
            if t.a[0] in ("BitAnd", "BitOr") and None in (a, b):
                z = 0 if t.a[0] == "BitAnd" else 1
                return z if z in (a, b) and self.bool(t.a[1]) and self.bool(t.a[2]) else None
            if a is None or b is None:
                return None
            f = {"Eq": a == b, "Ne": a != b, "Lt": a < b, "Le": a <= b, "Gt": a > b, "Ge": a >= b, "BitAnd": a & b, "BitOr": a | b, "BitXor": a ^ b, "Add": a + b, "Sub": a - b, "Mul": a * b, "Rem": a % b if b > 0 and a >= 0 else None, "Div": a // b if b > 0 and a >= 0 else None, "Shl": a << b if 0 <= b < 128 else None, "Shr": a >> b if 0 <= b < 128 and a >= 0 else None}.get(t.a[0].replace("WithOverflow", "").replace("Unchecked", ""))
            return int(f) if f is not None else None
        e = equality(t)
        if e:
            a, b = self.val(e[0], d + 1), self.val(e[1], d + 1)
            return None if a is None or b is None else int((a == b) is e[2])
        if t.op in ("pure", "call"):
            n = t.a[0].split("::")[-1]
            if n in ("lt", "le", "gt", "ge") and len(t.a[1]) == 2:
                a, b = (self.val(x, d + 1) for x in t.a[1])
                return None if a is None or b is None else int({"lt": a < b, "le": a <= b, "gt": a > b, "ge": a >= b}[n])
            if re.fullmatch(r"from_[lbn]e_bytes", n) and t.a[1]:
                b = self.S.follow(t.a[1][0])
                m = re.search(r"num::<impl [ui](\d+)>|\b[ui](\d+)::", t.a[0])
                w = int(m.group(1) or m.group(2)) // 8 if m else 0
                xs = [self.val(x, d + 1) for x in b.a[3]] if b.op == "agg" and b.a[0] == "arr" else [next((v for k, v in self.given if k.fullmatch(f"{self.q.c(b)}[{i}]")), None) for i in range(w)]
                if not xs or None in xs or (w and len(xs) != w) or "num::<impl i" in t.a[0]:
                    return None
                return int.from_bytes(bytes(xs), "big" if n == "from_be_bytes" else "little")
            if n in ("min", "max") and len(t.a[1]) == 2:
                a, b = (self.val(x, d + 1) for x in t.a[1])
                return None if a is None or b is None else (min if n == "min" else max)(a, b)
            if n in CHARS and "char" in t.a[0]:
                xs = [x for x in t.a[1] if x.op != "ty"]
                v = self.val(xs[0], d + 1) if len(xs) == 1 else None
                return None if v is None or v > 127 else int(CHARS[n](chr(v)))
            if n == "contains" and len(t.a[1]) == 2:
                r, x = self.S.follow(t.a[1][0]), self.val(t.a[1][1], d + 1)
                if x is not None and r.op in ("call", "pure") and r.a[0].endswith("RangeInclusive::new"):
                    lo, hi = (self.val(y, d + 1) for y in [y for y in r.a[1] if y.op != "ty"][:2])
                    return None if lo is None or hi is None else int(lo <= x <= hi)
                if x is None or r.op != "agg":
                    return None
                if r.a[0] == "arr":
                    xs = [self.val(y, d + 1) for y in r.a[3]]
                    return None if None in xs else int(x in xs)
                f = dict(zip(r.a[2], r.a[3]))
                lo = self.val(f["start"], d + 1) if "start" in f else 0
                hi = self.val(f["end"], d + 1) if "end" in f else 1 << 200
                if lo is None or hi is None:
                    return None
                return int(lo <= x and (x <= hi if "Inclusive" in r.a[0] else x < hi))
        return None

    def bool(self, t):
        t = self.S.follow(t)
        return t.op == "bin" and t.a[0] in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge") or t.op in ("call", "pure") and t.a[0].split("::")[-1] in CHARS and "char" in t.a[0] or t.op == "int" and t.a[1] == "bool" or equality(t) is not None or t.op == "un" and self.bool(t.a[1]) or t.op == "bin" and self.bool(t.a[1]) and self.bool(t.a[2])

    def dead(self, e):
        if e.kind != "br" or e.raw not in ("bool", "int") or not isinstance(e.args[0], Term):
            return False
        v = self.val(e.args[0])
        if v is None:
            return False
        w = e.args[1]
        if isinstance(w, tuple):
            return v in w[1]
        return int(w) != v


def at(q, given):
    """the query on only the paths where these quantities have these values"""
    return settle(q, dead=lambda q: Concrete(q, given).dead)
