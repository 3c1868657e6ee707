"""Queries over event graphs: canonical forms, paths, languages."""
import json, os, re, subprocess, sys, time
from engine import *

# ---------------------------------------------------------------- events


def flat(ev):
    """The simple events on an edge, in order."""
    if ev is None:
        return []
    if ev.kind == "seq":
        r = []
        for e in ev.args:
            r.extend(flat(e))
        return r
    if ev.kind == "stores":
        return list(ev.args)
    return [ev]


class Query:
    def __init__(self, prog, root, **kw):
        self.p = prog
        e = Eval(prog, **kw)
        e.cbinfo = {}
        self.g = e.run(root)
        self.root = self.g.root
        self.canon_cache = {}
        self.edges = []
        for n, es in self.g.succ.items():
            for ev, m in es:
                self.edges.append((n, flat(ev), m))

    def events(self, pred=None):
        seen = set()
        for n, evs, m in self.edges:
            for e in evs:
                if pred is None or pred(e):
                    yield e

    def calls(self, rx):
        r = re.compile(rx)
        return [e for e in self.events() if e.kind in ("call", "id") and r.search(e.name)]

    def rets(self, variant=None):
        out = []
        for e in self.events(lambda e: e.kind == "ret"):
            if variant is None or (e.res.op == "agg" and e.res.a[1] == variant) or e.res.op != "agg":
                out.append(e)
        return out

    # ---- split graph: one node per event so that path queries see the order
    def split(self):
        if hasattr(self, "_split"):
            return self._split
        succ = {}
        nid = [10**9]
        for n, evs, m in self.edges:
            cur = n
            if not evs:
                succ.setdefault(n, []).append((None, m))
                continue
            for i, e in enumerate(evs):
                if i == len(evs) - 1:
                    nx = m
                else:
                    nid[0] += 1
                    nx = nid[0]
                succ.setdefault(cur, []).append((e, nx))
                cur = nx
        self._split = succ
        return succ

    def path_avoiding(self, avoid, target, start=None):
        """A path from the entry (or from just after an event matching start) to an event
        matching target on which no event matches avoid; None when every path passes avoid."""
        succ = self.split()
        init = []
        if start is None:
            init = [(0, None)]
        else:
            for n, es in succ.items():
                for e, m in es:
                    if e is not None and start(e):
                        init.append((m, (None, e)))
        seen = set()
        todo = deque()
        for n, tr in init:
            if n not in seen:
                seen.add(n)
                todo.append((n, tr))
        while todo:
            n, tr = todo.popleft()
            for e, m in succ.get(n, ()):
                if e is not None:
                    if target(e):
                        return self.trace((tr, e))
                    if avoid(e):
                        continue
                if m not in seen:
                    seen.add(m)
                    todo.append((m, (tr, e) if e is not None and e.kind != "id" else tr))
        return None

    def trace(self, tr):
        out = []
        while tr is not None:
            tr, e = tr
            if e is not None:
                out.append(e)
        out.reverse()
        return out

    # ---- languages
    def nfa(self, label, accept):
        """NFA over labels: label(event) -> None | str | list of str; accept(ret event) -> bool."""
        succ = self.split()
        trans = {}
        final = "F"
        nid = [0]
        for n, es in succ.items():
            for e, m in es:
                if e is not None and e.kind == "ret":
                    l = label(e)
                    if accept(e):
                        trans.setdefault(n, []).append((None, final))
                    continue
                l = label(e) if e is not None else None
                if l is None:
                    trans.setdefault(n, []).append((None, m))
                elif isinstance(l, list):
                    cur = n
                    for i, x in enumerate(l):
                        if i == len(l) - 1:
                            nx = m
                        else:
                            nid[0] += 1
                            nx = ("x", nid[0])
                        trans.setdefault(cur, []).append((x, nx))
                        cur = nx
                    if not l:
                        trans.setdefault(n, []).append((None, m))
                else:
                    trans.setdefault(n, []).append((l, m))
        return NFA(trans, {0}, {final})

    # ---- canonical forms
    def c(self, t):
        return Canon(self).c(t)


def loop_heads(q):
    """Loops by site: [(site key, is-head predicate, element text)]"""
    out = {}
    for e in q.events():
        if e.kind == "call" and NEXT.search(e.name) and e.res.op == "call":
            out.setdefault(("n", e.res.a[2]), e)
        elif e.kind == "cbin":
            out.setdefault(("c", e.res.id), e)
    r = []
    for k, e in out.items():
        if k[0] == "n":
            r.append((k, (lambda x, s=k[1]: x.kind == "call" and x.res is not None and x.res.op == "call" and x.res.a[2] == s and NEXT.search(x.name)), Canon(q).elem(e.args[0]), e))
        else:
            r.append((k, (lambda x, s=k[1]: x.kind in ("cbin", "cbend") and x.res.id == s), Canon(q).elem(e.args[0] if e.args else UNIT), e))
    return r


def body_of(q, k, head):
    """the event that enters the body of a loop"""
    if k[0] == "c":
        return lambda x: x.kind == "cbin" and head(x)
    some = lambda x: x.kind == "br" and x.args[0].op == "call" and x.args[0].a[2] == k[1] and x.args[1] == "Some"
    return some if any(some(e) for e in q.events()) else head


PARTIAL = re.compile(r"\b(take|take_while|skip|skip_while|map_while|step_by|chunks_exact|rchunks_exact|split_at|split_first|split_last|get|truncate|nth|first|last|drain|split_off|dedup\w*|retain\w*|pop|swap_remove|remove)[!(]|headers\[(Range|\d|-)")


def every_iteration(q, pred, elem=None, ok=None):
    """Is there a loop (over elements accepted by elem) that performs pred in every
    iteration and is left only when exhausted, on every successful path?
    Returns (True, where) or (False, [reasons])."""
    ok = ok or (lambda e: e.kind == "ret" and not (e.res.op == "agg" and e.res.a[1] == "Err"))
    why = []
    for k, head, el, ev in loop_heads(q):
        if elem and not elem(el):
            continue
        if q.path_avoiding(head, pred, start=head) is None or q.path_avoiding(lambda x: False, head, start=pred) is None:
            continue
        tr = q.path_avoiding(pred, head, start=body_of(q, k, head))
        if tr is not None:
            why.append(("an iteration does not perform it", el, tr))
            continue
        if k[0] == "n":

            def gone(x, head=head):
                return head(x) or (x.kind == "br" and x.args[0].op == "call" and x.args[0].a[2] == k[1] and x.args[1] == "None")

            tr = q.path_avoiding(gone, ok, start=head)
            if tr is not None:
                why.append(("the loop can be left before its input is exhausted", el, tr))
                continue
        return True, ev.where()
    return False, why


class NFA:
    def __init__(self, trans, start, final):
        self.trans = trans
        self.start = start
        self.final = final

    def closure(self, ss):
        seen = set(ss)
        st = list(ss)
        while st:
            x = st.pop()
            for l, m in self.trans.get(x, ()):
                if l is None and m not in seen:
                    seen.add(m)
                    st.append(m)
        return frozenset(seen)

    def dead_trim(self):
        """states from which a final state is reachable"""
        rev = {}
        for n, es in self.trans.items():
            for l, m in es:
                rev.setdefault(m, []).append(n)
        ok = set(self.final)
        st = list(ok)
        while st:
            x = st.pop()
            for n in rev.get(x, ()):
                if n not in ok:
                    ok.add(n)
                    st.append(n)
        self.ok = ok
        return ok

    def dfa(self, limit=20000):
        ok = self.dead_trim()
        s0 = frozenset(x for x in self.closure(self.start) if x in ok)
        tab = {s0: 0}
        order = [s0]
        tr = []
        fin = []
        i = 0
        while i < len(order):
            s = order[i]
            mv = {}
            for x in s:
                for l, m in self.trans.get(x, ()):
                    if l is not None and m in ok:
                        mv.setdefault(l, set()).add(m)
            row = {}
            for l, ms in mv.items():
                c = frozenset(x for x in self.closure(ms) if x in ok)
                if not c:
                    continue
                if c not in tab:
                    tab[c] = len(order)
                    order.append(c)
                    if len(order) > limit:
                        raise Budget("automaton too large")
                row[l] = tab[c]
            tr.append(row)
            fin.append(any(x in self.final for x in s))
            i += 1
        return tr, fin

    def empty(self):
        return not any(s in self.dead_trim() for s in self.start)


def compare(d1, d2, within=None):
    """Shortest word in the symmetric difference: (word, in_first) or None if equal; within: (state,
    step(state, label) -> state or None), only the words this automaton goes along with count."""
    t1, f1 = d1
    t2, f2 = d2
    D = -1
    w0, step = within or (None, lambda s, l: s)
    seen = {(0, 0, w0)}
    todo = deque([((0, 0, w0), ())])
    while todo:
        (a, b, c), w = todo.popleft()
        fa = a != D and f1[a]
        fb = b != D and f2[b]
        if fa != fb:
            return list(w), fa
        ls = set(t1[a] if a != D else ()) | set(t2[b] if b != D else ())
        for l in sorted(ls, key=str):
            na = t1[a].get(l, D) if a != D else D
            nb = t2[b].get(l, D) if b != D else D
            nc = step(c, l)
            if (na, nb) == (D, D) or (na, nb, nc) in seen or nc is None and within:
                continue
            seen.add((na, nb, nc))
            todo.append(((na, nb, nc), w + (l,)))
    return None


def regex(ast):
    """Spec automaton. ast: str | ('seq', ...) | ('alt', ...) | ('star', x) | ('opt', x)"""
    trans = {}
    n = [0]

    def new():
        n[0] += 1
        return n[0]

    def b(a, s):
        if isinstance(a, str):
            e = new()
            trans.setdefault(s, []).append((a, e))
            return e
        k = a[0]
        if k == "seq":
            for x in a[1:]:
                s = b(x, s)
            return s
        if k == "alt":
            e = new()
            for x in a[1:]:
                i = new()
                trans.setdefault(s, []).append((None, i))
                trans.setdefault(b(x, i), []).append((None, e))
            return e
        if k == "star":
            i = new()
            trans.setdefault(s, []).append((None, i))
            e = b(a[1], i)
            trans.setdefault(e, []).append((None, i))
            o = new()
            trans.setdefault(i, []).append((None, o))
            return o
        if k == "opt":
            return b(("alt", a[1], ("seq",)), s)
        raise ValueError(k)

    f = b(ast, 0)
    return NFA(trans, {0}, {f}).dfa()


def seq(*a):
    return ("seq",) + a


def star(*a):
    return ("star", seq(*a))


def opt(*a):
    return ("opt", seq(*a))


def alt(*a):
    return ("alt",) + a


# ---------------------------------------------------------------- canonical terms

WIDTH = {"u8": (8, 0), "u16": (16, 0), "u32": (32, 0), "u64": (64, 0), "u128": (128, 0), "usize": (64, 0), "i8": (8, 1), "i16": (16, 1), "i32": (32, 1), "i64": (64, 1), "i128": (128, 1), "isize": (64, 1), "char": (32, 0), "bool": (1, 0), "f32": (24, 1), "f64": (53, 1)}

LISTLIKE = re.compile(r"(Vec|VecDeque|Box<\[|LinkedList|\[)")


class Canon:
    """Canonical text of a value: which input it is, ignoring how it was moved there."""

    def __init__(self, q, names=None):
        self.q = q
        self.g = q.g
        self.memo = q.canon_cache
        self.busy = {}
        self.low = 1 << 30
        self.tmp = {}
        self.names = names or {}

    def c(self, t):
        r = self.memo.get(t.id)
        if r is not None:
            return r
        if t.id in self.busy:
            self.low = min(self.low, self.busy[t.id])
            return "⟲"
        r = self.tmp.get(t.id)
        if r is not None:
            # seen from inside a loop that is still being named
            self.low = min(self.low, r[1])
            return r[0]
        d = len(self.busy)
        if d > 300:
            self.low = 0
            return "…"
        outer, self.low = self.low, 1 << 30
        self.busy[t.id] = d
        r = self._c(t)
        del self.busy[t.id]
        if self.low < d:
            self.tmp[t.id] = (r, self.low)
            self.low = min(outer, self.low)
        else:
            if self.low == d:
                self.tmp = {k: v for k, v in self.tmp.items() if v[1] < d}
            self.low = outer
            if "⟲" not in r:
                self.memo[t.id] = r
        return r

    def alts(self, xs):
        s = set()
        for x in xs:
            if x == "⟲":
                continue
            if x.startswith("{") and x.endswith("}") and "\x00" in x:
                s.update(x[1:-1].split("\x00"))
            else:
                s.add(x)
        s.discard("⟲")
        if len(s) > 1:
            s2 = {x for x in s if "∅" not in x}
            if s2:
                s = s2
        if not s:
            return "⟲"
        if len(s) > 1 and all(x.startswith("sorted<") for x in s):
            ks = {x[: x.index(">(") + 2] for x in s}
            if len(ks) == 1:
                k = next(iter(ks))
                inner = self.alts([x[len(k):-1] for x in s])
                return k + inner + ")"
        for x in list(s):
            if "mut(" + x + ")" in s:
                s.discard(x)
        if len(s) == 1:
            return next(iter(s))
        # lists built up by pushes: union of what is pushed
        if all(x.startswith("list[") for x in s):
            its = set()
            for x in s:
                its.update(i for i in x[5:-1].split("\x01") if i)
            return "list[" + "\x01".join(sorted(its)) + "]"
        return "{" + "\x00".join(sorted(s)) + "}"

    def push(self, base, item):
        b = self.c(base)
        i = self.c(item)
        if b == "⟲":
            return "list[" + i + "]"
        if b.startswith("list["):
            its = set(x for x in b[5:-1].split("\x01") if x)
            its.add(i)
            return "list[" + "\x01".join(sorted(its)) + "]"
        return f"append({b}, {i})"

    def elem(self, base, n=None):
        """canonical element of the canonical container term `base`"""
        t = base
        # look through iterator state changes
        k = 0
        while k < 50:
            k += 1
            if t.op == "out" and t.a[0].op == "call" and NEXT.search(t.a[0].a[0]):
                t = t.a[0].a[1][t.a[1]]
                continue
            if t.op == "phi":
                al = [x for x in self.g.phi.get(t, ()) if x is not t]
                # the loop head of an iterator: drop the advanced states
                al2 = []
                for x in al:
                    y = x
                    j = 0
                    while y.op == "out" and y.a[0].op == "call" and NEXT.search(y.a[0].a[0]) and j < 20:
                        y = y.a[0].a[1][y.a[1]]
                        j += 1
                    if y is not t and y not in al2:
                        al2.append(y)
                if len(al2) == 1:
                    t = al2[0]
                    continue
            break
        if t.op in ("call", "pure"):
            nm = t.a[0]
            if nm.endswith("::enumerate"):
                return "enum(" + self.elem(t.a[1][0]) + ")"
            if nm.endswith("::Iterator::map"):
                rs = self.g.cbret.get(t)
                if rs:
                    return self.alts([self.c(x) for x in rs])
            if nm.endswith("::Iterator::flat_map"):
                rs = self.g.cbret.get(t)
                if rs:
                    return self.alts([self.elem(x) for x in rs])
            if nm.endswith(("::Iterator::filter",)):
                el = self.elem(t.a[1][0])
                rs = self.g.cbret.get(t)
                p = "?"
                if rs:
                    p = self.alts([self.c(x) for x in rs]).replace(el, "_")
                return f"filtered<{p}>({el})"
            if nm.endswith("::Iterator::rev"):
                return "rev:" + self.elem(t.a[1][0])
            if nm.endswith(("::Iterator::zip",)):
                return "zip(" + self.elem(t.a[1][0]) + ", " + self.elem(t.a[1][1]) + ")"
            if nm.endswith("::Iterator::collect"):
                return self.elem(t.a[1][0])
            if nm.endswith(("::values", "::into_values", "::values_mut")):
                return self.c(t.a[1][0]) + "[*].1"
            if nm.endswith(("::keys", "::into_keys")):
                return self.c(t.a[1][0]) + "[*].0"
        b = self.c(t)
        sfx = "" if n is None else f"#{n}"
        if b.startswith("list[") and "\x01" not in b:
            return (b[5:-1] or "∅") + sfx
        if b.startswith("sorted<") and ">(list[" in b and "\x01" not in b:
            k = b.index(">(list[")
            return b[: k + 1] + ":" + (b[k + 7:-2] or "∅") + sfx
        return b + "[*]" + sfx

    def _c(self, t):
        o, a = t.op, t.a
        c = self.c
        if o == "param":
            return self.names.get(a[0], f"arg{a[0]}")
        if o == "int":
            if a[1] == "bool":
                return "true" if a[0] else "false"
            return str(a[0])
        if o == "str":
            return json.dumps(a[0])
        if o == "bytes":
            return "b" + json.dumps(a[0])
        if o == "static" or o == "const":
            return a[0]
        if o == "fld":
            b, name, var = a
            if var in ("Ok", "Some", "Continue") and name == "0":
                if b.op == "call" and NEXT.search(b.a[0]):
                    return self.elem(b.a[1][0])
                if b.op in ("call", "pure"):
                    nm = b.a[0]
                    if nm.endswith(("::TryFrom::try_from", "::TryInto::try_into")):
                        return c(b.a[1][0])
                    if nm.endswith(("::first", "::last", "::get", "::get_mut", "::pop", "::pop_front")) and len(b.a[1]) in (1, 2):
                        pass
                return c(b) + "?"
            s = c(b)
            m = re.match(r"enum\((.*)\)$", s)
            if m and name == "1":
                return m.group(1)
            if m and name == "0":
                return "index"
            if s.startswith("zip(") and name in "01":
                sfx = "[*]" if s.endswith(")[*]") else ""
                parts = split_top(s[4:-1 - len(sfx)])
                if len(parts) == 2:
                    return parts[int(name)] + sfx
            if s.startswith("(") and s.endswith(")") and not var and name.isdigit():
                parts = split_top(s[1:-1])
                if int(name) < len(parts):
                    return parts[int(name)]
            return s + "." + name + (f"@{var}" if var else "")
        if o == "phi":
            return self.alts([c(x) for x in self.g.phi.get(t, ())])
        if o == "elem":
            return self.elem(a[0], a[1] if len(a) > 1 else None)
        if o == "idx":
            i = a[1]
            if i.op == "int":
                return f"{c(a[0])}[{i.a[0]}]"
            if i.op == "agg" and i.a[0].endswith("RangeFull"):
                return c(a[0])
            if i.op == "agg" and "range::Range" in i.a[0]:
                return f"{c(a[0])}[{c(i)}]"
            if i.op == "sub":
                return f"{c(a[0])}[{i.a[0]}..{'-' if i.a[2] else ''}{i.a[1]}]"
            if i.op == "str":
                return f"{c(a[0])}[{c(i)}]"
            if i.op == "fromend":
                return f"{c(a[0])}[-{i.a[0]}]"
            return f"{c(a[0])}[*]"
        if o == "agg":
            if a[0] == "tup":
                return "(" + ", ".join(c(x) for x in a[3]) + ")"
            if a[0] == "arr":
                return "list[" + "\x01".join(sorted(set(c(x) for x in a[3]))) + "]" if False else "[" + ", ".join(c(x) for x in a[3]) + "]"
            if a[0] == "closure":
                return "closure"
            nm = a[0].split("::")[-1]
            fs = ", ".join((f"{n}:" if not n.isdigit() else "") + c(v) for n, v in zip(a[2], a[3]))
            ad = self.q.p.adts.get(a[0])
            v = "::" + a[1] if ad and ad["kind"] == "enum" else ""
            return f"{nm}{v}({fs})" if fs else f"{nm}{v}"
        if o == "cast":
            f, to = WIDTH.get(a[2]), WIDTH.get(a[3])
            s = c(a[1])
            if a[0].startswith("FloatToFloat") and a[2] == "f32":
                return s
            if f and to and a[0] in ("IntToInt",):
                lossless = (to[0] >= f[0] and to[1] == f[1]) or (to[0] > f[0] and to[1] and not f[1])
                if lossless:
                    return s
                return f"trunc<{a[2]}->{a[3]}>({s})"
            if a[2].startswith("*") or a[3].startswith("*") or a[2].startswith("&"):
                return s
            return f"as<{a[2]}->{a[3]}>({s})"
        if o == "bin":
            return f"({c(a[1])} {a[0]} {c(a[2])})"
        if o == "un":
            return f"{a[0]}({c(a[1])})"
        if o == "discr":
            return f"discr({c(a[0])})"
        if o == "arriter":
            return c(a[0])
        if o == "rep":
            return f"rep({c(a[0])};{a[1]})"
        if o == "fn":
            return "fn:" + short(a[0])
        if o == "with":
            v, w = c(a[3]), c(T("fld", a[0], a[1], a[2]))
            if v == w:
                return c(a[0])
            return f"{c(a[0])}{{{a[1]}:={c(a[3])}}}"
        if o == "upd":
            return f"{c(a[0])}{{[{c(a[1])}]:={c(a[2])}}}"
        if o == "out":
            call, i = a
            if call.op not in ("call", "pure"):
                return f"out({c(call)})"
            nm, args = call.a[0], call.a[1]
            if NEXT.search(nm):
                return c(args[i])
            if i == 0 and re.search(r"(Vec::push|VecDeque::push_back|VecDeque::push_front|HashSet::insert|IndexSet::insert|BTreeSet::insert)$", nm) and len(args) == 2:
                return self.push(args[0], args[1])
            if i == 0 and nm.endswith("Vec::resize") and len(args) == 3:
                return f"pad({c(args[0])}, {c(args[1])}, {c(args[2])})"
            if i == 0 and re.search(r"(::Extend::extend|Vec::extend_from_slice|Vec::append)$", nm) and len(args) == 2:
                b = c(args[0])
                e = self.elem(args[1])
                if b.startswith("list["):
                    its = set(x for x in b[5:-1].split("\x01") if x)
                    its.add(e)
                    return "list[" + "\x01".join(sorted(its)) + "]"
                return f"append({b}, *{e})"
            m = re.search(r"::(sort\w*)$", nm)
            if m and i == 0:
                return f"sorted<{self.sortkey(call, m.group(1))}>({c(args[0])})"
            if re.search(r"::(rewind|seek|flush|reserve|by_ref|shrink_to_fit|lock|reserve_exact|stream_position|get_mut|iter_mut|values_mut|first_mut|last_mut|as_mut|get_or_insert\w*|entry)$", nm):
                return c(args[i])
            if i == 0:
                b = c(obj(t, self.g))
                return b if b.startswith("mut(") else f"mut({b})"
            return f"{short(nm).split('::')[-1]}!{i}({', '.join(c(x) for x in args)})"
        if o in ("call", "pure"):
            nm, args = a[0], a[1]
            last = nm.split("::")[-1]
            if nm == "len":
                s = c(args[0])
                return f"len({s})"
            if re.search(r"(Vec::new|Vec::with_capacity|VecDeque::new|HashSet::new|HashSet::with_capacity|IndexSet::new|BTreeSet::new)$", nm):
                return "list[]"
            if nm.endswith("::Iterator::collect"):
                ty = args[1].a[0] if len(args) > 1 else ""
                if LISTLIKE.search(ty) and not re.search(r"Map", ty):
                    return "list[" + self.elem(args[0]) + "]"
                return f"collect({c(args[0])})"
            if nm.endswith("::Iterator::map") and t in self.g.cbret:
                return "map(" + self.alts([c(x) for x in self.g.cbret[t]]) + ")"
            if last in ("try_from", "try_into"):
                return f"checked({c(args[0])})"
            if re.search(r"(::sorted\w*)$", nm) and "itertools" in nm.lower():
                return f"sorted<{self.sortkey(t, last)}>(list[{self.elem(args[0])}])"
            if nm == "alloc::string::String::new":
                return '""'
            args = [x for x in args if x.op != "ty"]
            extra = ""
            if o == "call" and t in self.g.cbret and len(self.g.cbret[t]) <= 8:
                extra = "=>" + self.alts([c(x) for x in self.g.cbret[t]])
            return f"{short(nm) if last in ('new', 'default', 'from', 'parse', 'fmt') else last}({', '.join(c(x) for x in args)}{extra})"
        if o == "cbarg":
            return f"cb{a[2]}({short(a[0])})"
        if o == "unk":
            return f"unk"
        return f"{o}({', '.join(c(x) if type(x) is Term else str(x) for x in a)})"

    def sortkey(self, call, kind):
        rs = self.g.cbret.get(call)
        if kind in ("sort", "sort_unstable", "sorted", "sorted_unstable", "par_sort"):
            return "natural"
        if not rs:
            return "?"
        ks = set()
        for r in rs:
            s = self.c(r)
            el = re.escape(self.elem(call.a[1][0]))
            if "key" in kind:
                ks.add(re.sub(el, "_", s))
                continue
            m = None
            if r.op in ("pure", "call") and r.a[0].endswith(("::cmp", "::partial_cmp")) and len(r.a[1]) == 2:
                x, y = self.c(r.a[1][0]), self.c(r.a[1][1])
                if "#0" in x and "#1" in y and x.replace("#0", "#1") == y:
                    ks.add(re.sub(r"^.*?\[\*\]#0", "_", x) if False else self.keyof(x, "#0"))
                    continue
                if "#1" in x and "#0" in y and x.replace("#1", "#0") == y:
                    ks.add("desc " + self.keyof(x, "#1"))
                    continue
            ks.add("?" + s)
        return "|".join(sorted(ks))

    def keyof(self, x, tag):
        """replace the element reference (a balanced prefix ending in tag) by _"""
        i = x.find(tag)
        # scan left to the start of the element expression
        depth = 0
        j = i - 1
        while j >= 0:
            ch = x[j]
            if ch in ")]}":
                depth += 1
            elif ch in "([{":
                if depth == 0:
                    break
                depth -= 1
            elif ch in ", " and depth == 0:
                break
            j -= 1
        return x[: j + 1] + "_" + x[i + len(tag):]


def split_top(s):
    out = []
    d = 0
    cur = ""
    q = False
    i = 0
    while i < len(s):
        ch = s[i]
        if ch == '"' and (i == 0 or s[i - 1] != "\\"):
            q = not q
        if not q:
            if ch in "([{<":
                d += 1
            elif ch in ")]}>" and not (ch == ">" and s[i - 1] in "-="):
                d -= 1
            elif ch == "," and d == 0:
                out.append(cur.strip())
                cur = ""
                i += 1
                continue
        cur += ch
        i += 1
    if cur.strip():
        out.append(cur.strip())
    return out


def obj(t, g=None, depth=0):
    """The object a (possibly mutated, wrapped) value is: walks through state
    changes and wrappers back to where the object came from."""
    n = 0
    while n < 10000:
        n += 1
        if t.op == "out":
            call, i = t.a
            if call.op in ("call", "pure"):
                t = call.a[1][i]
                continue
            return t
        if t.op in ("with", "upd"):
            t = t.a[0]
            continue
        if t.op == "call" and re.search(r"(BufWriter|BufReader|LineWriter)::(new|with_capacity)$", t.a[0]):
            t = t.a[1][-1]
            continue
        if t.op in ("call", "pure") and re.search(r"::(get_mut|get_ref|by_ref|into_inner|get_mut_ref)$", t.a[0]) and "io::" in t.a[0]:
            t = t.a[1][0]
            continue
        if t.op == "fld" and t.a[2] in ("Ok",) and t.a[0].op == "call" and t.a[0].a[0].endswith("into_inner"):
            t = t.a[0].a[1][0]
            continue
        if t.op == "phi" and g is not None and depth < 60:
            objs = set()
            seen = {t}
            todo = list(g.phi.get(t, ()))
            while todo:
                y = obj(todo.pop(), None)
                if y in seen:
                    continue
                seen.add(y)
                if y.op == "phi":
                    todo.extend(g.phi.get(y, ()))
                else:
                    objs.add(y)
            if len(objs) == 1:
                t = next(iter(objs))
                continue
            return t
        return t
    return t


def reaches(g, t, pred, limit=4000):
    """all terms satisfying pred that t is built from (through joins and updates)"""
    seen, out, st = set(), [], [t]
    while st and len(seen) < limit:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if pred(x):
            out.append(x)
            continue
        if x.op == "phi":
            st.extend(g.phi.get(x, ()))
        else:
            for y in subterms(x):
                if y is not x and y not in seen:
                    st.append(y)
    return out


REL = {"Lt": "<", "Le": "<=", "Gt": ">", "Ge": ">=", "Eq": "==", "Ne": "!=", "lt": "<", "le": "<=", "gt": ">", "ge": ">=", "eq": "==", "ne": "!="}
NEG = {"<": ">=", ">=": "<", ">": "<=", "<=": ">", "==": "!=", "!=": "=="}
SWAP = {"<": ">", ">": "<", "<=": ">=", ">=": "<=", "==": "==", "!=": "!="}


def relation(t, v):
    """(x, relation, y) established by the boolean (or Ordering) term t having value v, or None"""
    k = 0
    while t.op == "un" and t.a[0] == "Not" and k < 8:
        t, v, k = t.a[1], (not v if isinstance(v, bool) else v), k + 1
    isord = lambda x: x.op in ("pure", "call") and x.a[0].split("::")[-1] in ("cmp", "partial_cmp", "total_cmp") and len(x.a[1]) >= 2
    if isord(t):
        m = {"Less": "<", "Equal": "==", "Greater": ">"}
        if v in m:
            return t.a[1][0], m[v], t.a[1][1]
        if isinstance(v, tuple):
            s = str(v)
            got = {x for x in m if x in s}
            r = {frozenset(("Greater",)): "<=", frozenset(("Less",)): ">=", frozenset(("Equal",)): "!=", frozenset(("Less", "Equal")): ">", frozenset(("Greater", "Equal")): "<", frozenset(("Less", "Greater")): "=="}.get(frozenset(got))
            return (t.a[1][0], r, t.a[1][1]) if r else None
        return None
    if not isinstance(v, bool):
        return None
    if t.op == "bin" and t.a[0] in REL:
        rel, x, y = REL[t.a[0]], t.a[1], t.a[2]
    elif t.op in ("pure", "call"):
        last = t.a[0].split("::")[-1]
        if last in REL and len(t.a[1]) == 2:
            rel, x, y = REL[last], t.a[1][0], t.a[1][1]
        elif re.match(r"is_(lt|le|gt|ge|eq|ne)$", last) and len(t.a[1]) == 1:
            rel, x, y = REL[last[3:]], t.a[1][0], T("agg", "core::cmp::Ordering", "Equal", (), ())
        else:
            return None
    else:
        return None
    if not v:
        rel = NEG[rel]
    # comparisons of an Ordering with a constant
    def unord(z):
        while z.op == "discr" or (z.op == "cast"):
            z = z.a[0] if z.op == "discr" else z.a[1]
        return z
    for a, b, rl in ((x, y, rel), (y, x, SWAP[rel])):
        o = unord(a)
        if isord(o):
            w = None
            if b.op == "int":
                w = {-1: "Less", 255: "Less", 0: "Equal", 1: "Greater"}.get(b.a[0])
            elif b.op == "agg":
                bb = b
                if bb.a[1] == "Some" and bb.a[3]:
                    bb = bb.a[3][0]
                w = bb.a[1] if bb.op == "agg" else None
            tab = {("Equal", r): r for r in NEG}
            tab.update({("Greater", "=="): ">", ("Greater", "!="): "<=", ("Greater", "<"): "<=", ("Greater", ">="): ">", ("Less", "=="): "<", ("Less", "!="): ">=", ("Less", ">"): ">=", ("Less", "<="): "<"})
            r = tab.get((w, rl))
            return (o.a[1][0], r, o.a[1][1]) if r else None
    return x, rel, y


def counter(q, ph):
    """(start, step) when the loop variable ph counts by a constant, else None"""
    al = [x for x in q.g.phi.get(ph, ()) if x is not ph]
    start = step = None
    for x in al:
        while x.op == "fld" and x.a[0].op == "bin":
            x = x.a[0]
        if x.op == "bin" and x.a[0].replace("WithOverflow", "") in ("Add", "Sub"):
            a, b = x.a[1], x.a[2]
            if a.op == "int" and x.a[0].startswith("Add"):
                a, b = b, a
            if b.op == "int" and (a is ph or a in al and a.op == "phi" or a.op == "phi"):
                s = b.a[0] if x.a[0].startswith("Add") else -b.a[0]
                if step is not None and step != s:
                    return None
                step = s
                continue
            if a.op == "int" and b.op == "int":
                # a first iteration peeled off by constant propagation
                continue
        if x.op == "phi":
            continue
        if x.op == "int":
            if start is not None and start != x.a[0]:
                return None
            start = x.a[0]
            continue
        if start is not None:
            return None
        start = x
    return (start, step) if start is not None and step is not None else None
