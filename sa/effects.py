"""Which primitive effects a function can have, through everything it calls."""
from engine import *


class Effects:
    """prim(callee name, call, body) -> set of labels when the call is a primitive (it is then not
    entered), or None.  store(type of the written local, field path) -> label or None."""

    def __init__(self, p, prim, store=None):
        self.p, self.prim, self.store = p, prim, store
        self.memo = {}
        self.kids = {}
        for k, b in p.fns.items():
            if b.kind == "closure" and b.parent:
                self.kids.setdefault(b.parent, []).append(b)

    def callee(self, f):
        for k in (f.get("r"), f.get("fn")):
            if k and self.p.body(k) is not None:
                return self.p.body(k)
        return None

    def direct(self, b):
        """(labels, callees) of one body, its closures included"""
        if b.key in self.memo:
            return self.memo[b.key]
        lab, cal = set(), set()
        self.memo[b.key] = (lab, cal)
        for blk in b.blocks:
            for s in blk["s"]:
                if self.store and len(s[0]) > 1:
                    l = self.store(str(b.locals[s[0][0]][0]), [e[2] for e in s[0][1:] if type(e) is list and e[0] == "f"])
                    if l:
                        lab.add(l)
                for o in operands(s[1]):
                    self.fnref(o, b, lab, cal)
            t = blk["t"]
            if t[0] != "call":
                continue
            f = t[1]
            for o in t[2]:
                self.fnref(o, b, lab, cal)
            if "fn" not in f:
                continue
            n = strip_gen(f.get("r") or f["fn"])
            r = self.prim(n, t, b)
            if r is None and f.get("r"):
                r = self.prim(strip_gen(f["fn"]), t, b)
            if r is not None:
                lab |= r
                continue
            c = self.callee(f)
            if c is not None and c.kind != "ext":
                cal.add(c.key)
        for kb in self.kids.get(b.key, ()):
            cal.add(kb.key)
        return self.memo[b.key]

    def fnref(self, o, b, lab, cal):
        """functions passed as values"""
        if o and o[0] == "k" and isinstance(o[1], dict) and "fn" in o[1]:
            c = self.callee(o[1])
            if c is not None and c.kind != "ext":
                cal.add(c.key)

    def of(self, key):
        b = self.p.body(key)
        if b is None:
            return set()
        seen, st, out = {b.key}, [b.key], set()
        while st:
            lab, cal = self.direct(self.p.body(st.pop()))
            out |= lab
            for c in cal:
                if c not in seen:
                    seen.add(c)
                    st.append(c)
        return out

    def call(self, e):
        """effects of a call event of an event graph"""
        r = self.prim(strip_gen(e.name), None, None)
        if r is not None:
            return r
        for k in self.p.by_norm.get(strip_gen(e.name), ()):
            return self.of(k.key)
        return set()


def operands(r):
    k = r[0]
    if k in ("use", "rep"):
        return [r[1]]
    if k == "cast":
        return [r[2]]
    if k == "bin":
        return [r[2], r[3]]
    if k == "un":
        return [r[2]]
    if k == "agg":
        return list(r[4])
    return []
