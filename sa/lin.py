"""Linear sizes: ghost byte counters, path-restricted values, sums over lists."""
import re
from engine import *
from lib import *
from wire import WR, tobytes


class Lin(dict):
    """linear expression over atoms (terms or texts); key 1 is the constant"""

    def plus(self, o, k=1):
        r = Lin(self)
        for a, c in o.items():
            v = r.get(a, 0) + k * c
            if v:
                r[a] = v
            else:
                r.pop(a, None)
        return r

    def key(self):
        return tuple(sorted(((str(a) if not isinstance(a, Term) else f"t{a.id}"), c) for a, c in self.items()))

    def __repr__(self):
        return " + ".join((f"{c}*" if c != 1 else "") + (a.text if isinstance(a, Sigma) else str(a)) if a != 1 else str(c) for a, c in self.items()) or "0"


class Sigma:
    """sum over the elements of a list"""

    _all = {}

    def __new__(cls, elem, body):
        k = (elem, body.key())
        if k not in cls._all:
            o = object.__new__(cls)
            o.elem, o.body = elem, body
            o.text = f"Σ[{elem}]({body!r})"
            cls._all[k] = o
        return cls._all[k]

    def __str__(self):
        return self.text

    __repr__ = __str__


def const(n):
    return Lin({1: n}) if n else Lin()


class Sizes:
    """Linear view of a query. lengths: [(regex on call name, fn(q, term) -> Lin or atom)]"""

    def __init__(self, q, rules=()):
        self.q = q
        self.g = q.g
        self.rules = rules
        self.memo = {}

    def edges(self, ph):
        return self.g.phin.get(ph.a[0], {}).get(ph, {})

    def follow(self, t):
        """the value of a joined variable when only one is left"""
        n = 0
        while t.op == "phi" and n < 50:
            n += 1
            vs = {v for v in self.edges(t).values() if v is not t}
            if len(vs) != 1:
                break
            t = next(iter(vs))
        return t

    def lin(self, t, depth=0):
        t = self.follow(t)
        k = t.id
        if k in self.memo:
            return self.memo[k]
        self.memo[k] = Lin({t: 1})
        r = self._lin(t, depth)
        self.memo[k] = r
        return r

    def _lin(self, t, depth):
        if depth > 60:
            return Lin({t: 1})
        L = lambda x: self.lin(x, depth + 1)
        if t.op == "int":
            return const(t.a[0])
        if t.op == "fld" and t.a[1] == "0" and t.a[0].op == "bin" and t.a[0].a[0].endswith("WithOverflow"):
            t = t.a[0]
        if t.op == "bin":
            o = t.a[0].replace("WithOverflow", "").replace("Unchecked", "")
            if o == "Add":
                return L(t.a[1]).plus(L(t.a[2]))
            if o == "Sub":
                return L(t.a[1]).plus(L(t.a[2]), -1)
            if o == "Mul":
                a, b = L(t.a[1]), L(t.a[2])
                for x, y in ((a, b), (b, a)):
                    if set(x) <= {1}:
                        c = x.get(1, 0)
                        return Lin({k: v * c for k, v in y.items()}) if c else Lin()
        if t.op == "cast" and t.a[0] == "IntToInt" and not re.fullmatch(r"[ui](8|16)", str(t.a[3])):
            return L(t.a[1])
        if t.op == "fld" and t.a[2] in ("Ok", "Some") and t.a[0].op in ("call", "pure") and t.a[0].a[0].split("::")[-1] in ("try_from", "try_into", "checked_add", "checked_sub"):
            c = t.a[0]
            last = c.a[0].split("::")[-1]
            if last == "checked_add":
                return L(c.a[1][0]).plus(L(c.a[1][1]))
            if last == "checked_sub":
                return L(c.a[1][0]).plus(L(c.a[1][1]), -1)
            return L(c.a[1][0])
        if t.op in ("call", "pure"):
            last = t.a[0].split("::")[-1]
            if last in ("into", "from", "to_owned", "clone") and len(t.a[1]) and t.a[1][0].op != "ty" and re.search(r"convert|clone", t.a[0]):
                return L(t.a[1][0])
            if last in ("wrapping_add", "saturating_add"):
                return L(t.a[1][0]).plus(L(t.a[1][1]))
        for rx, fn in self.rules:
            c = t
            if c.op == "fld" and c.a[2] == "Ok" and c.a[0].op == "call":
                c = c.a[0]
            if c.op in ("call", "pure") and re.search(rx, c.a[0]):
                if c is t and c is not t:
                    continue
                r = fn(self.q, c)
                if r is not None:
                    return r if isinstance(r, Lin) else Lin({r: 1})
        if t.op in ("call", "pure"):
            last = t.a[0].split("::")[-1]
            if last == "len" and len(t.a[1]) == 1:
                x = self.follow(t.a[1][0])
                if x.op in ("str", "bytes"):
                    return const(len(x.a[0]))
                if x.op == "agg" and x.a[0] == "arr":
                    return const(len(x.a[3]))
                if x.op == "call" and x.a[0].endswith("from_elem"):
                    return L(x.a[1][1])
                s = self.q.c(self.follow(x))
                return Lin({f"len({s})": 1})
            if last in ("sum", "fold") and re.search(r"Iterator|Sum", t.a[0]):
                r = self.summed(t, depth)
                if r is not None:
                    return r
            if last == "map_or" and len(t.a[1]) == 3:
                pass
        if t.op == "phi":
            vs = self.edges(t)
            ls = {}
            for v in vs.values():
                if v is t:
                    continue
                l = L(v)
                ls[l.key()] = l
            if len(ls) == 1:
                l = next(iter(ls.values()))
                if t not in l:
                    return l
        return Lin({t: 1})

    def closed(self, l, depth=0):
        """replace loop variables by start + sum of steps"""
        r = Lin()
        for a, c in l.items():
            if isinstance(a, Term) and a.op == "phi" and depth < 8:
                x = self.closed_phi(a, depth)
                r = r.plus(x, c)
            else:
                r = r.plus(Lin({a: 1}), c)
        return r

    def closed_phi(self, t, depth):
        ls = {}
        for v in self.edges(t).values():
            if v is t:
                continue
            l = self.lin(v)
            ls[l.key()] = l
        inner = {}
        outer = {}
        for l in ls.values():
            if t not in l:
                l = self.closed(l, depth + 1)
            (inner if t in l else outer)[l.key()] = l
        if len(outer) == 1 and not inner:
            return next(iter(outer.values()))
        if len(inner) == 1 and len(outer) == 1 and next(iter(inner.values())).get(t) == 1:
            step = self.closed(next(iter(inner.values())).plus(Lin({t: 1}), -1), depth + 1)
            el = self.loop_elem(t)
            if el is not None and not any(isinstance(a, Term) and a.op == "phi" for a in step):
                return next(iter(outer.values())).plus(Lin({Sigma(el, step): 1}))
        return Lin({t: 1})

    def loop_elem(self, ph):
        """what the loop whose head joins ph iterates over"""
        seen = {ph.a[0]}
        st = [ph.a[0]]
        while st:
            n = st.pop()
            for ev, m in self.g.succ.get(n, ()):
                es = flat(ev)
                hit = False
                for e in es:
                    if e.kind == "call" and NEXT.search(e.name):
                        return Canon(self.q).elem(e.args[0])
                    if e.kind == "br":
                        hit = True
                if not hit and m not in seen:
                    seen.add(m)
                    st.append(m)
        return None

    def summed(self, t, depth):
        x = self.follow(t.a[1][0])
        if t.a[0].endswith("::fold"):
            ls = {}
            for r in self.g.cbret.get(t, ()):
                l = self.lin(r, depth + 1)
                acc = [a for a in l if isinstance(a, Term) and a.op == "cbarg" and a.a[1] is t]
                if len(acc) != 1 or l[acc[0]] != 1:
                    return None
                l = l.plus(Lin({acc[0]: 1}), -1)
                ls[l.key()] = l
            if len(ls) != 1:
                return None
            return self.lin(t.a[1][1], depth + 1).plus(Lin({Sigma(Canon(self.q).elem(x), next(iter(ls.values()))): 1}))
        rs = self.g.cbret.get(x)
        if not rs or not (x.op == "call" and x.a[0].endswith("::map")):
            return None
        ls = {}
        for r in rs:
            l = self.lin(r, depth + 1)
            ls[l.key()] = l
        if len(ls) != 1:
            return None
        el = Canon(self.q).elem(x.a[1][0])
        return Lin({Sigma(el, next(iter(ls.values()))): 1})


def datasize(S, t):
    """length of a byte sequence"""
    t = S.follow(t)
    if t.op in ("bytes", "str"):
        return const(len(t.a[0].encode("latin1") if isinstance(t.a[0], str) else t.a[0]))
    if t.op == "agg" and t.a[0] == "arr":
        return const(len(t.a[3]))
    if t.op in ("pure", "call"):
        m = re.match(r"core::(?:num|f32|f64)::<impl [uif](\d+)>::to_(le|be|ne)_bytes$", t.a[0])
        if m:
            return const(int(m.group(1)) // 8)
    return S.lin(T("pure", "len", (t,)))


def emitted(S, e, sink):
    """bytes an event writes to the sink: Lin, or None when it writes nothing there"""
    if e.kind != "call" or not e.args:
        return None
    m = WR.search(e.name)
    if m and sink(e.args[0]):
        return const(int(m.group(2)) // 8)
    if re.search(r"Write::write_all$|Vec::extend_from_slice$", e.name) and sink(e.args[0]):
        return datasize(S, e.args[1])
    if re.search(r"Vec::push$", e.name) and sink(e.args[0]):
        return const(1)
    if e.name.endswith("::write_cstring") and sink(e.args[0]):
        return datasize(S, e.args[1]).plus(const(1))
    if e.name.endswith("::write_compressed_int") and sink(e.args[0]):
        return S.lin(T("fld", e.res, "0", "Ok"))
    if re.search(r"Write::write$", e.name) and sink(e.args[0]):
        return S.lin(T("fld", e.res, "0", "Ok"))
    return None


def restrict(q, dead):
    """The query on only those paths that take no edge with a dead event."""
    seen = {0}
    st = [0]
    live = {}
    while st:
        n = st.pop()
        for i, (ev, m) in enumerate(q.g.succ.get(n, ())):
            if any(dead(e) for e in flat(ev)):
                continue
            # keep edge positions: they name the incoming values of joins
            live.setdefault(n, {})[i] = (ev, m)
            if m not in seen:
                seen.add(m)
                st.append(m)
    r = object.__new__(Query)
    r.p, r.root, r.canon_cache = q.p, q.root, {}
    g = Graph()
    g.__dict__.update(q.g.__dict__)
    nowhere = -1
    g.succ = {n: [live.get(n, {}).get(i, (None, nowhere)) for i in range(len(es))] for n, es in q.g.succ.items() if n in seen}
    g.phin, g.phi = {}, dict(q.g.phi)
    for n, m in q.g.phin.items():
        if n in seen:
            g.phin[n] = {ph: {k: v for k, v in d.items() if k[0] == "root" or k[1] in live.get(k[0], {})} for ph, d in m.items()}
            for ph, d in g.phin[n].items():
                g.phi[ph] = set(d.values()) - {ph} or {ph}
    live_site = {res: {k: v for k, v in m.items() if k[1] in live.get(k[0], {})} for res, m in q.g.cbsite.items()}
    g.cbsite = {res: m for res, m in live_site.items() if m}
    g.cbret = {res: set(m.values()) for res, m in g.cbsite.items()}
    r.g = g
    r.edges = [(n, flat(ev), m) for n, es in g.succ.items() for ev, m in es if m != nowhere]
    return r


def variant_dead(q, want):
    """dead-edge predicate: want = [(predicate on canonical text, allowed variants)]"""

    def dead(e):
        if e.kind != "br" or e.raw not in ("variant", "bool"):
            return False
        s = None
        for p, vs in want:
            s = s if s is not None else q.c(e.args[0])
            if p(s):
                v = e.args[1]
                if isinstance(v, tuple):
                    return False
                return v != '?' and not any(x in vs for x in v.split('|')) if isinstance(v, str) else v not in vs
        return False

    return dead


TOP = "unknown"


def ghost(S, size, start=None, only=None):
    """For every node the number of bytes emitted since the entry, as a linear expression
    (over the loop variables of enclosing loops), or TOP.  size(e) -> Lin | None.
    only: the loop variables that may hold it.  size(e) may also be ("=", Lin | TOP)."""
    g = S.g
    # depth first order over the live graph
    succ = {}
    order = []
    state = {}
    back = set()
    pred = {}
    stack = [(0, iter(enumerate(g.succ.get(0, ()))))]
    state[0] = 1
    while stack:
        n, it = stack[-1]
        for i, (ev, m) in it:
            pred.setdefault(m, []).append((n, i))
            if state.get(m) == 1:
                back.add((n, i))
            elif m not in state:
                state[m] = 1
                stack.append((m, iter(enumerate(g.succ.get(m, ())))))
                break
        else:
            stack.pop()
            state[n] = 2
            order.append(n)
    order.reverse()
    heads = {m for m, ks in pred.items() if any(k in back for k in ks)}
    cand = {m: [None] + sorted(g.phin.get(m, {}), key=lambda t: t.id) for m in heads}
    if only is not None:
        cand = {m: [c for c in cs if c is None or only(c) and S.lin(c) == Lin({c: 1})] for m, cs in cand.items()}
    mode = {m: 1 if only is not None and len(cand[m]) > 1 else 0 for m in heads}
    incs = {}

    def inc(n, i, ev):
        k = (n, i)
        if k not in incs:
            v, reset = Lin(), False
            for e in flat(ev):
                x = size(e)
                if isinstance(x, tuple):
                    # ("=", value): starts again from there
                    v, reset = x[1], True
                elif x is TOP or v is TOP:
                    v = TOP
                elif x is not None:
                    v = v.plus(x)
            incs[k] = v, reset
        return incs[k]

    for _ in range(60):
        val = {}
        ins = {}
        for n in order:
            im = ins.get(n, {})
            if n == 0:
                v = start or Lin()
            elif not im:
                v = TOP
            else:
                v = joined(S, n, im, only)
                c = cand[n][mode[n]] if n in heads else None
                if n in heads and mode[n] and v is not TOP:
                    ev = g.phin[n][c]
                    ds = {}
                    for k, x in im.items():
                        d = x.plus(S.lin(ev[k]), -1) if k in ev else None
                        ds[d.key() if d is not None else None] = d
                    v = Lin({c: 1}).plus(next(iter(ds.values()))) if len(ds) == 1 and None not in ds else TOP
            val[n] = v
            for i, (ev, m) in enumerate(g.succ.get(n, ())):
                d, reset = inc(n, i, ev)
                x = d if reset else TOP if v is TOP or d is TOP else v.plus(d)
                ins.setdefault(m, {})[(n, i)] = x
        again = False
        for m in heads:
            c = cand[m][mode[m]]
            ok = val[m] is not TOP
            if ok:
                for k, x in ins[m].items():
                    if k not in back:
                        continue
                    if x is TOP:
                        # decided by what is inside; not this loop's fault unless it persists
                        ok = ok and True
                        continue
                    if c is None:
                        ok = ok and x == val[m]
                    else:
                        v = g.phin[m][c].get(k)
                        ok = ok and v is not None and x.plus(S.lin(v), -1) == val[m].plus(Lin({c: 1}), -1)
            if not ok and mode[m] < len(cand[m]) - 1:
                mode[m] += 1
                again = True
            elif not ok:
                mode[m] = len(cand[m]) - 1
        if not again:
            break
    # what is still inconsistent is unknown, and so is all that follows
    badh = set()
    for m in heads:
        c = cand[m][mode[m]]
        for k, x in ins[m].items():
            if k in back:
                if x is TOP or val[m] is TOP:
                    badh.add(m)
                elif c is None:
                    if x != val[m]:
                        badh.add(m)
                else:
                    v = g.phin[m][c].get(k)
                    if v is None or x.plus(S.lin(v), -1) != val[m].plus(Lin({c: 1}), -1):
                        badh.add(m)
    st = list(badh)
    seen = set(st)
    while st:
        n = st.pop()
        val[n] = TOP
        for i, (ev, m) in enumerate(g.succ.get(n, ())):
            if m not in seen and m in val and not inc(n, i, ev)[1]:
                seen.add(m)
                st.append(m)
    return val, ins


def joined(S, m, im, only=None):
    vs = list(im.values())
    if any(v is TOP for v in vs):
        return TOP
    phs = S.g.phin.get(m, {})
    own = lambda l: any(isinstance(a, Term) and a in phs for a in l)
    ks = {v.key() for v in vs}
    if len(ks) == 1 and not own(vs[0]):
        return vs[0]
    for ph in sorted(phs, key=lambda t: (only is not None and not only(t), t.id)):
        ev = phs[ph]
        ds = {}
        ok = True
        for k, v in im.items():
            if k not in ev:
                ok = False
                break
            d = v.plus(S.lin(ev[k]), -1)
            ds[d.key()] = d
        if ok and len(ds) == 1:
            d = next(iter(ds.values()))
            if not own(d):
                return Lin({ph: 1}).plus(d)
    return TOP


def thread(q, rounds=4):
    """The same paths with the branches on joined constants decided: a join that is entered with a
    constant and only branches on it is split by its incoming edges."""
    for _ in range(rounds):
        r = _thread(q)
        if r is None:
            return q
        q = r
    return q


def _thread(q):
    g0 = q.g
    back = set()
    state = {}
    stack = [(0, iter(enumerate(g0.succ.get(0, ()))))]
    state[0] = 1
    while stack:
        n, it = stack[-1]
        for i, (ev, m) in it:
            if m == -1:
                continue
            if state.get(m) == 1:
                back.add(m)
            elif m not in state:
                state[m] = 1
                stack.append((m, iter(enumerate(g0.succ.get(m, ())))))
                break
        else:
            state[n] = 2
            stack.pop()
    todo = {}
    indeg = {}
    for n, es in g0.succ.items():
        for ev, k in es:
            indeg[k] = indeg.get(k, 0) + 1
    for m, phs in g0.phin.items():
        if m in back or m not in state:
            continue
        at = m
        for _ in range(20):
            es = [(ev, k) for ev, k in g0.succ.get(at, ()) if k != -1]
            if len(es) == 1 and len(g0.succ[at]) == 1 and not flat(es[0][0]) and indeg.get(es[0][1]) == 1:
                at = es[0][1]
            else:
                break
        outs = [(j, flat(ev)) for j, (ev, k) in enumerate(g0.succ.get(at, ())) if ev is not None or k != -1]
        if len(outs) < 2 or not all(es and es[0].kind == "br" and isinstance(es[0].args[0], Term) for _, es in outs):
            continue
        t = outs[0][1][0].args[0]
        neg = False
        while t.op == "un" and t.a[0] == "Not":
            t, neg = t.a[1], not neg
        if t not in phs or any(not (es[0].args[0] is outs[0][1][0].args[0]) for _, es in outs):
            continue
        ph = t
        raw = outs[0][1][0].raw
        for e, v in phs[ph].items():
            if e[0] == "root" or e[0] not in state:
                continue
            if raw == "bool" and v.op == "int":
                want = bool(v.a[0]) is not neg
                keep = [j for j, es in outs if str(es[0].args[1]) == str(want)]
            elif raw == "variant" and v.op == "agg" and v.a[1]:
                keep = [j for j, es in outs if isinstance(es[0].args[1], str) and (es[0].args[1] == "?" or v.a[1] in es[0].args[1].split("|"))]
            else:
                continue
            if len(keep) == 1 and len(outs) > 1:
                todo.setdefault((m, at), {})[e] = keep[0]
    if not todo:
        return None
    r = object.__new__(Query)
    r.p, r.root, r.canon_cache = q.p, q.root, {}
    g = Graph()
    g.__dict__.update(g0.__dict__)
    g.succ = {n: list(es) for n, es in g0.succ.items()}
    g.phin = {n: {ph: dict(d) for ph, d in m.items()} for n, m in g0.phin.items()}
    g.cbsite = {res: dict(m) for res, m in g0.cbsite.items()}
    new = max(g.succ) + 1
    redirected = False
    for (m, at), es in todo.items():
        for (n, i), j in es.items():
            if i >= len(g.succ.get(n, ())) or g.succ[n][i][1] != m:
                continue
            redirected = True
            c = new
            new += 1
            g.succ[n][i] = (g.succ[n][i][0], c)
            g.succ[c] = [(x if k == j else (None, -1)) for k, x in enumerate(g.succ[at])]

            def here(v):
                # the joined value itself is known here
                w = g0.phin.get(m, {}).get(v, {}).get((n, i)) if v.op == "phi" else None
                return v if w is None else w

            for ph, d in g.phin.get(g.succ[at][j][1], {}).items():
                if (at, j) in d:
                    d[(c, j)] = here(d[(at, j)])
            for d in g.cbsite.values():
                if (at, j) in d:
                    d[(c, j)] = here(d[(at, j)])
    if not redirected:
        return None
    r.g = g
    # drop what can no longer be reached
    return restrict(r, lambda e: False)
