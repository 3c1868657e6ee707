"""What a function does with a stream of tokens, by the kinds of the tokens: the language of kinds and
actions over the event graph, with the kind of the token ahead as the abstract state."""
import re
from engine import *
from lib import *
from lin import *
from logic import equality

READ = re.compile(r"::(next|peek|peek_mut|next_if|by_ref)$")
VIEW = re.compile(r"::(by_ref|into_iter|deref_mut|borrow_mut|as_mut|peekmore|peekable)$")
LOOK = re.compile(r"::(peek_nth|peek_forward|peek_backward|peek_next|peek_previous|advance_cursor\w*|move_cursor\w*|reset_cursor|reset_view|peek_backward_or_first)$")
SAME = ("clone", "as_ref", "deref", "borrow", "unwrap", "expect", "from", "into", "as_deref", "cloned", "copied", "branch", "to_owned", "as_mut", "deref_mut")


def pointee(t):
    """a reference to what a parameter points to is the parameter"""
    if t.op == "ref" and type(t.a[0]) is tuple and len(t.a[0]) == 3 and t.a[0][0] == 0 and type(t.a[0][1]) is int and t.a[0][1] < 0 and not t.a[0][2]:
        return T("param", -t.a[0][1])
    return t


def classes(q, kinds, groups=()):
    """one kind of token for each class the function (or the specification: groups) tells apart"""
    sets = [frozenset(g) for g in groups]
    for e in q.events():
        if e.kind == "br" and e.raw == "variant" and isinstance(e.args[1], str):
            sets.append(frozenset(e.args[1].split("|")))
        if e.kind == "br" and type(e.args[0]) is Term:
            todo, n = [e.args[0]], 0
            while todo and n < 40:
                n += 1
                t = todo.pop()
                if t.op == "agg" and t.a[1] in kinds:
                    sets.append(frozenset([t.a[1]]))
                if t.op == "discr":
                    ad = q.p.adts.get(t.a[1])
                    sets += [frozenset([v[0]]) for v in ad["vs"]] if ad and set(kinds) & {v[0] for v in ad["vs"]} else []
                todo += [x for x in t.a if type(x) is Term] if t.op in ("un", "bin", "agg") else [x for x in t.a[1] if type(x) is Term] if t.op in ("call", "pure") else []
                todo += [x for x in t.a[3] if type(x) is Term] if t.op == "agg" else []
    out = {}
    for k in kinds:
        out.setdefault(tuple(k in x for x in sets), []).append(k)
    return [v[0] for v in out.values()]


class Reader:
    """kinds: the kinds of tokens looked at; label(event, reader, state) -> label, list of labels or
    None; truth(term, reader, state) -> what is assumed of a condition; variant(term, reader, state) -> the
    variant a term is assumed to have.  A taken token is labelled with its kind; a call that reads the
    stream is labelled <label>@<kind of the next token>; a return is labelled left:<kind>."""

    def __init__(self, q, stream, kinds, label, truth=None, variant=None, ints=None):
        self.q, self.kinds, self.label, self.ints = q, tuple(kinds) + ("end",), label, ints
        self.assume, self.variant = truth or (lambda t, r, st: None), variant or (lambda t, r, st: None)
        self.S = Sizes(q)
        self.root_stream = stream
        self.init = {}
        self.late = ()

    # ---- terms
    def stream(self, t):
        if type(t) is not Term:
            return False
        o = obj(t, self.q.g)
        for _ in range(10):
            if o.op in ("call", "pure") and o.a[1] and VIEW.search(o.a[0]):
                o = obj(o.a[1][0], self.q.g)
            o = pointee(o)
        return self.root_stream(o)

    def origin(self, t, st):
        """the read a term comes from: id with a state, or None"""
        for _ in range(60):
            if ("k", t.id) in st:
                return t.id
            u = self.S.follow(t)
            if u is not t:
                t = u
                continue
            if t.op == "fld":
                t = t.a[0]
            elif t.op in ("call", "pure") and t.a[1] and t.a[0].split("::")[-1] in SAME:
                t = [x for x in t.a[1] if x.op != "ty"][0]
            elif t.op == "agg" and len(t.a[3]) == 1:
                t = t.a[3][0]
            elif t.op == "cast":
                t = t.a[1]
            else:
                return None
        return None

    def token(self, t, st):
        """(kind, age) of a token term: 0 is ahead, 1 the one taken last, 2 an earlier one"""
        o = self.origin(t, st)
        return st["k", o] if o is not None else None

    def is_symbol(self, t):
        """a branch on the kind of a token, not on the option around it"""
        return True

    # ---- exploration
    def nfa(self, accept):
        q = self.q
        g = q.g
        trans, final = {}, "F"
        start = (0, frozenset(self.init.items()))
        seen = {start}
        todo = [start]
        nid = [0]

        def emit(a, ls, b):
            cur = a
            for i, l in enumerate(ls):
                nx = b if i == len(ls) - 1 else ("x", nid[0] + 1)
                nid[0] += 1
                trans.setdefault(cur, []).append((l, nx))
                cur = nx
            if not ls:
                trans.setdefault(a, []).append((None, b))

        def to(n, st):
            s = (n, frozenset(st.items()))
            if s not in seen:
                seen.add(s)
                todo.append(s)
            return s
        steps = self.steps()
        live = self.live(steps)
        while todo:
            if len(seen) > 150000:
                raise Budget("reader states")
            s = todo.pop()
            n, st0 = s
            for e, m, asg in steps.get(n, ()):
                for ls, st in self.apply(e, dict(st0)):
                    if e is not None and e.kind == "ret":
                        if accept(e):
                            for _, x in self.choose(st):
                                emit(s, ls + list(st.get(("e", "held"), ())) + ["left:" + x["cur"]], final)
                        continue
                    st = dict(st)
                    if asg:
                        old = dict(st)
                        for ph, v in asg.items():
                            for c in "bvk":
                                st.pop((c, ph), None)
                        for ph, v in asg.items():
                            w = self.S.follow(v)
                            if v.op == "int" and v.a[1] == "bool":
                                st["b", ph] = bool(v.a[0])
                            elif ("b", v.id) in old:
                                st["b", ph] = old["b", v.id]
                            elif v.op in ("un", "bin"):
                                x = self.truth(v, old)
                                if x is not None:
                                    st["b", ph] = x
                            if w.op == "agg" and w.a[1]:
                                st["v", ph] = w.a[1]
                            elif ("v", v.id) in old:
                                st["v", ph] = old["v", v.id]
                            o = self.origin(v, old)
                            if o is not None:
                                st["k", ph] = old["k", o]
                            if self.ints is not None and ph in self.numbers():
                                x = self.number(v, old)
                                st.pop(("i", ph), None)
                                if x is not None:
                                    st["i", ph] = x
                        if any(k[0] == "i" and abs(x) > self.ints for k, x in st.items() if k not in ("cur", "nx")):
                            continue
                    lv = live.get(m, frozenset())
                    st = {k: v for k, v in st.items() if k in ("cur", "nx") or k[0] == "e" or k[1] in lv}
                    emit(s, ls, to(m, st))
        self.states = len(seen)
        return NFA(trans, {start}, {final})

    def choose(self, st):
        """the states with the next token known"""
        if "cur" in st:
            return [([], st)]
        out = []
        for k in self.kinds:
            x = dict(st)
            x["cur"] = k
            out.append(([], x))
        return out

    def older(self, st):
        for k in [k for k in st if k[0] == "k"]:
            kind, age = st[k]
            st[k] = (kind, min(2, age + 1))

    def apply(self, e, st):
        """labels in self.late, given while the next token is known but not taken, come behind it"""
        if not self.late:
            return self.apply1(e, st)
        held = list(st.pop(("e", "held"), ()))
        seen = "cur" in st
        out = []
        for ls, x in self.apply1(e, st):
            took = seen and ("cur" not in x or e is not None and e.kind == "call" and READ.search(e.name) and e.name.endswith("::next") and ls)
            now = [l for l in ls if l not in self.late] if "cur" in x and not took else ls
            h = held + ([l for l in ls if l in self.late] if now is not ls else [])
            if took or "cur" not in x:
                now, h = now + h, []
            if h:
                x[("e", "held")] = tuple(h)
            out.append((now, x))
        return out

    def apply1(self, e, st):
        if e is None:
            return [([], st)]
        if e.kind == "call":
            a0 = e.args[0] if e.args and type(e.args[0]) is Term else None
            last = e.name.split("::")[-1]
            if a0 is not None and READ.search(e.name) and self.stream(a0):
                if last == "by_ref":
                    return [([], st)]
                out = []
                for _, x in self.choose(st):
                    ls = []
                    for k in "kvb":
                        x.pop((k, e.res.id), None)
                    kind = x["cur"]
                    if last == "next":
                        self.older(x)
                        if kind != "end":
                            x.pop("cur")
                            if "nx" in x:
                                x["cur"] = x.pop("nx")
                            ls = [kind]
                    x["k", e.res.id] = (kind, 1 if last == "next" else 0)
                    out.append((ls, x))
                return out
            far = [a.a[0] for a in e.args[1:] if type(a) is Term and a.op == "int"]
            if a0 is not None and last == "peek_nth" and far and far[0] in (0, 1) and self.stream(a0):
                out = []
                for _, x in self.choose(st):
                    for k in "kvb":
                        x.pop((k, e.res.id), None)
                    if far[0] == 0:
                        x["k", e.res.id] = (x["cur"], 0)
                        out.append(([], x))
                    else:
                        for kind in ("end",) if x["cur"] == "end" else (x["nx"],) if "nx" in x else self.kinds:
                            y = dict(x)
                            y["k", e.res.id] = (kind, -1)
                            if y["cur"] != "end":
                                y["nx"] = kind
                            out.append(([], y))
                return out
            if a0 is not None and LOOK.search(e.name) and self.stream(a0):
                st.pop(("k", e.res.id), None)
                return [(self.labels(e, st), st)]
            for k in "kvb":
                st.pop((k, e.res.id), None)
            if any(type(a) is Term and self.stream(a) for a in e.args) and not VIEW.search(e.name):
                out = []
                for _, x in self.choose(st):
                    ls = [l + "@" + x["cur"] for l in self.labels(e, x)]
                    self.older(x)
                    x.pop("cur", None)
                    x.pop("nx", None)
                    out.append((ls, x))
                return out
            return [(self.labels(e, st), st)]
        if e.kind == "br" and type(e.args[0]) is Term:
            t, v = e.args[0], e.args[1]
            if e.raw == "bool":
                b = v if isinstance(v, bool) else str(v) == "True"
                while t.op == "un" and t.a[0] == "Not":
                    t, b = t.a[1], not b
                known = self.truth(t, st)
                if known is not None and known is not b:
                    return []
                return [(self.labels(e, st), st)]
            if e.raw == "int" and self.ints is not None:
                x = self.number(t, st)
                if x is not None and (x in v[1] if isinstance(v, tuple) else int(v) != x):
                    return []
            if e.raw == "variant" and isinstance(v, str):
                vs = set(v.split("|"))
                w = self.variant(t, self, st)
                if w is not None and w not in vs:
                    return []
                if ("v", t.id) in st and st["v", t.id] not in vs:
                    return []
                o = self.origin(t, st)
                if o is not None:
                    kind, age = st["k", o]
                    if vs & {"Some", "None"}:
                        if ("None" if kind == "end" else "Some") not in vs:
                            return []
                    elif kind not in vs:
                        if kind == "end" or "Symbol" in str(e.args[2]):
                            return []
                return [(self.labels(e, st), st)]
        return [(self.labels(e, st), st)]

    def numbers(self):
        """the joined numbers a branch compares with a constant"""
        if not hasattr(self, "_numbers"):
            self._numbers = set()
            for e in self.q.events():
                if e.kind != "br" or type(e.args[0]) is not Term:
                    continue
                t = e.args[0]
                while t.op == "un":
                    t = t.a[1]
                ts = [t] if e.raw == "int" else [x for x in t.a[1:3]] if t.op == "bin" else list(t.a[1]) if t.op in ("call", "pure") and t.a[0].split("::")[-1] in ("eq", "ne", "lt", "le", "gt", "ge") else []
                for x in ts:
                    for _ in range(6):
                        if type(x) is not Term or x.op == "phi":
                            break
                        x = x.a[0] if x.op in ("fld", "ref") else x.a[1] if x.op in ("cast", "bin") else x
                    if type(x) is Term and x.op == "phi":
                        self._numbers.add(x.id)
            todo = True
            while todo:
                todo = False
                for n, phs in self.q.g.phin.items():
                    for ph, d in phs.items():
                        for v in d.values():
                            for x in (v, v.a[1] if v.op == "bin" else None, v.a[0].a[1] if v.op == "fld" and type(v.a[0]) is Term and v.a[0].op == "bin" else None):
                                if type(x) is Term and x.op == "phi" and ph.id in self._numbers and x.id not in self._numbers:
                                    self._numbers.add(x.id)
                                    todo = True
        return self._numbers

    def number(self, t, st, d=0):
        if d > 20 or type(t) is not Term:
            return None
        if ("i", t.id) in st:
            return st["i", t.id]
        if t.op == "int":
            return t.a[0] if type(t.a[0]) is int else None
        if t.op == "fld" and t.a[1] == "0" and t.a[0].op == "bin":
            t = t.a[0]
        if t.op == "bin":
            a, b = (self.number(x, st, d + 1) for x in t.a[1:3])
            o = t.a[0].replace("WithOverflow", "").replace("Unchecked", "")
            return None if None in (a, b) else {"Add": a + b, "Sub": a - b}.get(o)
        if t.op == "phi":
            u = self.S.follow(t)
            return self.number(u, st, d + 1) if u is not t else None
        return None

    def truth(self, t, st, d=0):
        """what is known of a condition"""
        if d > 30:
            return None
        if ("b", t.id) in st:
            return st["b", t.id]
        v = self.assume(t, self, st)
        if v is not None:
            return v
        if t.op == "int" and t.a[1] == "bool":
            return bool(t.a[0])
        if t.op == "un" and t.a[0] == "Not":
            v = self.truth(t.a[1], st, d + 1)
            return None if v is None else not v
        if t.op == "bin" and t.a[0] in ("BitAnd", "BitOr"):
            vs = [self.truth(x, st, d + 1) for x in t.a[1:3]]
            z = t.a[0] == "BitOr"
            return z if z in vs else None if None in vs else not z
        if self.ints is not None:
            rel = relation(t, True)
            if rel:
                a, b = self.number(rel[0], st), self.number(rel[2], st)
                if None not in (a, b):
                    return {"<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b, "==": a == b, "!=": a != b}.get(rel[1])
        e = equality(t)
        if e:
            for x, y in ((e[0], e[1]), (e[1], e[0])):
                if x.op == "discr" and y.op == "int":
                    o = self.origin(x.a[0], st)
                    ad = self.q.p.adts.get(x.a[1])
                    if o is not None and ad:
                        names = {n for n, dv, *_ in ad["vs"] if dv == y.a[0]}
                        kind = st["k", o][0]
                        return (("None" if kind == "end" else "Some") in names if str(x.a[1]).endswith("Option") else kind in names) is e[2]
                u = self.S.follow(y)
                for _ in range(4):
                    if u.op == "ref":
                        u = self.S.follow(u.a[0]) if type(u.a[0]) is Term else u
                if u.op == "agg" and u.a[1] and not u.a[3] and "Symbol" in str(u.a[0]):
                    o = self.origin(x, st)
                    if o is not None:
                        return (st["k", o][0] == u.a[1]) is e[2]
        if t.op == "phi":
            u = self.S.follow(t)
            if u is not t:
                return self.truth(u, st, d + 1)
        return None

    def labels(self, e, st):
        l = self.label(e, self, st)
        return l if isinstance(l, list) else [l] if l else []

    def steps(self):
        """one node per event; the last step of an edge also gives the joins their values"""
        g = self.q.g
        out, new = {}, 10**9
        for n, es in g.succ.items():
            for i, (ev, m) in enumerate(es):
                if m == -1 and ev is None:
                    continue
                evs = flat(ev) or [None]
                cur = n
                for k, e in enumerate(evs):
                    end = k == len(evs) - 1
                    new += not end
                    asg = {ph.id: d[n, i] for ph, d in g.phin.get(m, {}).items() if (n, i) in d and d[n, i] is not ph} if end else {}
                    out.setdefault(cur, []).append((e, m if end else new, asg))
                    cur = new
        return out

    def live(self, steps):
        """the reads whose results are used at or behind a node"""
        def ids(t, d, acc):
            if type(t) is not Term or t.id in acc[0] or d > 40:
                return
            acc[0].add(t.id)
            if t.op in ("call", "phi") or t.op == "pure":
                acc[1].add(t.id)
            u = self.S.follow(t)
            if u is not t:
                ids(u, d + 1, acc)
            if t.op in ("out", "upd", "with", "phi") or t.op == "call" and t.a[0].split("::")[-1] not in SAME:
                return
            for x in t.a:
                if type(x) is Term:
                    ids(x, d + 1, acc)
                elif isinstance(x, tuple):
                    for y in x:
                        if type(y) is Term:
                            ids(y, d + 1, acc)
        def of(t):
            acc = (set(), set())
            ids(t, 0, acc)
            return acc[1]
        back = {}
        for n, es in steps.items():
            for e, m, asg in es:
                uses = set()
                kill = set()
                if e is not None:
                    for a in list(e.args) + ([e.res] if e.kind == "ret" else []):
                        uses |= of(a)
                    if e.kind == "call" and e.res is not None:
                        kill.add(e.res.id)
                back.setdefault(m, []).append((n, uses, kill, {ph: of(v) for ph, v in asg.items()}))
        live = {}
        todo = list(set(back) | set(steps))
        while todo:
            m = todo.pop()
            lm = live.get(m, frozenset())
            for n, uses, kill, asg in back.get(m, ()):
                add = set(lm) - set(asg)
                for ph, us in asg.items():
                    if ph in lm:
                        add |= us
                add = (add - kill) | uses
                x = live.get(n, frozenset())
                if not add <= x:
                    live[n] = x | add
                    todo.append(n)
        return live


def machine(start, step, kinds, limit=5000):
    """The specification as an automaton: step(state, kind of the next token) -> list of (labels,
    state) where taking the token is the label of its kind, None stands for not taking any (labels
    and "leave"), and the state "ok" is the end with anything left."""
    kinds = tuple(kinds) + ("end",)
    trans = {}
    seen, todo, k = {start}, [start], 0
    for x in kinds:
        trans.setdefault("ok", []).append(("left:" + x, "F"))
    while todo:
        s = todo.pop()
        for kind in kinds:
            for ls, t in step(s, kind) or ():
                cur = s
                w = [kind if l == "take" else l.replace("@", "@" + kind) for l in ls]
                if t == "leave":
                    w, t = w + ["left:" + kind], "F"
                for i, l in enumerate(w):
                    k += 1
                    nx = t if i == len(w) - 1 else ("x", k)
                    trans.setdefault(cur, []).append((l, nx))
                    cur = nx
                if not w:
                    trans.setdefault(s, []).append((None, t))
                if t not in seen and t not in ("ok", "F"):
                    seen.add(t)
                    todo.append(t)
        if len(seen) > limit:
            raise Budget("specification states")
    return NFA(trans, {start}, {"F"})


def same(ctx, key, reader, spec, what, accept, within=None):
    """the language of the code is that of the specification"""
    d = reader.nfa(accept)
    where = reader.q.root.norm
    if d.empty():
        ctx.bad(key + ".empty", f"{what}: no successful path found", where=where)
        return False
    r = compare(d.dfa(), spec.dfa(), within)
    if r is None:
        ctx.ok(key, f"{what} ({reader.states} states)")
        return True
    w, infirst = r
    ctx.bad(key, f"{what}: " + ("the code also does: " if infirst else "the code never does: ") + " ".join(map(str, w)), ["sequence: " + str(x) for x in w], f"{where} ({reader.q.root.file}:{reader.q.root.line})")
    return False
