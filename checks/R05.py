"""Reading tokens never assumes one is there."""
from rules import *
from lin import *
from coll import *
from effects import Effects

META = dict(
    title="A source that ends early is an error, not a panic",
    statement="Wherever a source text or a macro body ends, in the middle of a directive, a macro call, a parameter list, a conditional or a pragma included, the preprocessor finishes with output or an error. It never takes a token for granted that it has not just seen, so it does not panic there, and the same holds for the first and last token of a list that may be empty.",
    over=["inputs"],
    forall="all token streams, cut off at any point, in every state of the preprocessor",
    why="tests use complete sources; the end of input at each point of each directive is a different case",
    files=["libs/preprocessor/src/processor"],
    mech=[("directives", "libs/preprocessor/src/processor/directives.rs"), ("macro calls", "libs/preprocessor/src/processor/defines.rs"), ("lines and words", "libs/preprocessor/src/processor/mod.rs"), ("whitespace", "libs/preprocessor/src/processor/whitespace.rs")],
    technique="typestate analysis (token known present / absent / unknown) over MIR event graphs, with derived preconditions checked at the call sites",
    note="The token stream adaptor is taken to be fused. Panics with other causes (overflow, stack depth) are not covered.",
)

P = "hemtt_preprocessor::"
OPQ = lambda k: bool(re.search(r"Processor>?::(walk|output|line|file|directive\w*|read_pragma|call_read_args|define_\w+|next_word|current_word|next_value|skip_\w+|expect_\w+)$|directive_if::\w+$|defines::Defines::|::code$|Pragma::|FunctionDefinition::|fmt::|tracing|parse::parse$|::locate$", k))
PANIC = re.compile(r"(expect_failed|unwrap_failed|expect_none_failed)$")
PEEK = re.compile(r"PeekMoreIterator::(\w+)$")
STREAM = re.compile(r"PeekMoreIterator")
EMPTY = re.compile(r"::is_empty$")
PART = re.compile(r"::(first|last|first_mut|last_mut|split_first|split_last|pop|next|next_back)$")


class Tokens:
    """the abstract state: facts about streams and lists
    (s, t): the next token of stream t is known present / absent, its cursor is at c;
    (f, t): so many further tokens are known present;
    (r, t): the optional t is known present / absent; (p, t): t tells about stream s"""

    def __init__(self, q):
        self.q = q
        self.streams = {}

    def stream(self, t):
        """the stream a term is (a view of)"""
        n = 0
        t = obj(t, self.q.g)
        while n < 10 and t.op in ("call", "pure") and t.a[1] and re.search(r"::(by_ref|into_iter|deref_mut|borrow_mut|as_mut)$", t.a[0]):
            t = obj(t.a[1][0], self.q.g)
            n += 1
        return t.id

    def lst(self, t):
        t = Sizes(self.q).follow(t)
        n = 0
        while n < 20:
            n += 1
            if t.op in ("call", "pure") and t.a[1] and re.search(r"::(iter|into_iter|as_slice|deref|as_ref|by_ref|peekmore|peekable|clone|iter_mut|borrow)$", t.a[0]):
                t = Sizes(self.q).follow(t.a[1][0])
            elif t.op in ("out", "ref", "phi", "upd"):
                o = obj(t, self.q.g)
                if o is t:
                    break
                t = o
            else:
                break
        return t.id

    def is_stream(self, e):
        return e.kind == "call" and e.args and (PEEK.search(e.name) or re.search(r"Iterator::next$|::next$", e.name) and self.stream(e.args[0]) in self.known)

    def edge(self, e):
        """the list whose first or last element the event takes for granted"""
        if e.kind != "call" or not re.search(r"Index(Mut)?::index(_mut)?$|(Vec|VecDeque)::(swap_)?remove$", e.name) or len(e.args) < 2 or not all(type(a) is Term for a in e.args[:2]):
            return None
        l, i = e.args[:2]
        end = False
        if i.op == "fld" and i.a[1] == "0" and i.a[0].op == "bin":
            i = i.a[0]
        if i.op == "bin" and str(i.a[0]).startswith("Sub") and i.a[2].op == "int" and i.a[2].a[0] == 1:
            x = i.a[1]
            end = x.op in ("call", "pure") and x.a[0].split("::")[-1] == "len" and x.a[1] and self.lst(x.a[1][0]) == self.lst(l)
        return self.lst(l) if (end or i.op == "int" and i.a[0] == 0) and not self.own(l) else None

    def step(self, e, st):
        """the states after event e, () when it cannot happen"""
        st = dict(st)
        if e.kind == "call" and e.args:
            m = PEEK.search(e.name)
            last = e.name.split("::")[-1]
            s = self.stream(e.args[0]) if type(e.args[0]) is Term else None
            if e.res is not None:
                for k in [k for k in st if k[0] in "rp" and k[1] == e.res.id]:
                    del st[k]  # a new value under the same name
            if m and last in ("peek", "peek_mut"):
                self.known.add(s)
                if st.get(("c", s), 0) == 0 and ("s", s) in st:
                    st["r", e.res.id] = st["s", s]
                else:
                    st["p", e.res.id] = (s, st.get(("c", s), 0))
                return st
            if m and last in ("peek_forward", "advance_cursor_by", "advance_cursor", "peek_next", "peek_backward", "move_cursor_back", "reset_cursor"):
                c = st.get(("c", s), 0)
                k = next((a.a[0] for a in e.args[1:] if a.op == "int"), 1)
                c = 0 if last == "reset_cursor" else c + k if last in ("peek_forward", "advance_cursor_by", "advance_cursor", "peek_next") else max(0, c - k)
                if c:
                    st["c", s] = c
                else:
                    st.pop(("c", s), None)
                if last in ("peek_forward", "peek_next"):
                    st["p", e.res.id] = (s, c)
                return st
            if m and last == "peek_nth":
                k = next((a.a[0] for a in e.args[1:] if a.op == "int"), None)
                if k is not None:
                    self.known.add(s)
                    st["p", e.res.id] = (s, k)
                return st
            if last == "next" and s in self.known:
                here = st.get(("s", s))
                far = st.get(("f", s), 0)
                if here is not None:
                    st["r", e.res.id] = here
                self.used(st, s, gone=here is not False)
                if far >= 1:
                    st["s", s] = True
                if far > 1:
                    st["f", s] = far - 1
                c = st.get(("c", s), 0)
                if c > 1:
                    st["c", s] = c - 1
                else:
                    st.pop(("c", s), None)
                return st
            if last in ("push", "push_back", "push_front", "insert"):
                self.lists(e, st)
                return st
            if PART.search(e.name) and ("n", self.lst(e.args[0])) in st:
                st["r", e.res.id] = st["n", self.lst(e.args[0])]
            if last in ("pop", "next", "clear", "truncate", "remove", "drain", "retain", "pop_front", "append", "swap_remove"):
                st.pop(("n", self.lst(e.args[0])), None)
                return st
            for a in e.args:
                if type(a) is Term and self.stream(a) in self.known:
                    self.used(st, self.stream(a))
            return st
        if e.kind == "br" and type(e.args[0]) is Term:
            t, v = e.args[:2]
            t, v = self.option(t, v)
            if v is None:
                x, b = e.args[:2]
                b = str(b) == "True"
                while x.op == "un" and x.a[0] == "Not":
                    x, b = x.a[1], not b
                if ("b", x.id) in st and bool(st["b", x.id]) is not b:
                    return None
                return self.length(e, st)
            if t.op in ("call", "pure") and PART.search(t.a[0]) and ("n", self.lst(t.a[1][0])) in st and ("r", t.id) not in st and not PEEK.search(t.a[0]):
                n = st["n", self.lst(t.a[1][0])]
                if n != v:
                    return None
            if not (t.op in ("call", "pure") and t.a[1] and (PART.search(t.a[0]) or PEEK.search(t.a[0]))):
                return st
            if ("r", t.id) in st:
                return st if st["r", t.id] is v else None
            st["r", t.id] = v
            if ("p", t.id) in st:
                s, c = st["p", t.id]
                if v or c == 0:
                    if st.get(("s", s), v) is not v:
                        return None
                    st["s", s] = v
                if v and c > st.get(("f", s), 0):
                    st["f", s] = c
            return st
        return st

    def used(self, st, s, gone=True):
        if gone:
            st.pop(("s", s), None)
            st.pop(("f", s), None)
        for k in [k for k in st if k[0] == "p" and st[k][0] == s]:
            del st[k]

    def option(self, t, v):
        """(optional term, is it Some)"""
        if str(v) in ("Some", "None"):
            return t, str(v) == "Some"
        if str(v) in ("True", "False"):
            b = str(v) == "True"
            if t.op == "un" and "Not" in str(t.a[0]):
                return self.option(t.a[1], str(not b))
            if t.op == "bin" and t.a[0] in ("Eq", "Ne"):
                for x, y in ((t.a[1], t.a[2]), (t.a[2], t.a[1])):
                    if x.op == "discr" and y.op == "int" and str(x.a[1]).endswith("option::Option"):
                        return x.a[0], (y.a[0] == 1) is (b is (t.a[0] == "Eq"))
            if t.op in ("call", "pure") and t.a[1] and t.a[0].endswith(("Option::is_some", "Option::is_none")):
                return t.a[1][0], b is t.a[0].endswith("is_some")
        return t, None

    def lists(self, e, st):
        """calls that fill a list"""
        st["n", self.lst(e.args[0])] = True

    def length(self, e, st):
        """a branch on the emptiness or length of a list"""
        t, v = e.args[:2]
        b = str(v) == "True"
        if str(v) not in ("True", "False"):
            return st
        while t.op == "un" and "Not" in str(t.a[0]):
            t, b = t.a[1], not b
        l = None
        if t.op in ("call", "pure") and EMPTY.search(t.a[0]):
            l, b = self.lst(t.a[1][0]), not b
        else:
            r = relation(t, b)
            if r:
                for x, o, y in ((r[0], r[1], r[2]), (r[2], {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(r[1], r[1]), r[0])):
                    if x.op in ("call", "pure") and x.a[0].split("::")[-1] == "len" and y.op == "int":
                        k = y.a[0]
                        if o == "==" and k > 0 or o == ">" and k >= 0 or o == ">=" and k > 0 or o == "!=" and k == 0:
                            l, b = self.lst(x.a[1][0]), True
                        elif o == "==" and k == 0 or o == "<" and k == 1 or o == "<=" and k == 0:
                            l, b = self.lst(x.a[1][0]), False
        if l is None:
            return st
        if st.get(("n", l), b) is not b:
            return None
        st["n", l] = b
        return st

    def explore(self, entry):
        """(panic events reached, [(event, states)] of calls), from the entry facts"""
        q = self.q
        self.known = set(self.params())
        init = frozenset((("s", s), True) for s in self.params()) if entry else frozenset()
        seen = {(0, init)}
        todo = [(0, init, None)]
        bad, calls = {}, {}
        succ = self.steps()
        live = self.live(succ)
        while todo:
            if len(seen) > 200000:
                raise Budget("token states")
            n, st, tr = todo.pop()
            for e, m, asg in succ.get(n, ()):
                s2 = st
                t2 = tr
                if e is not None and e.kind in ("call", "br"):
                    if e.kind == "call" and PANIC.search(e.name):
                        bad.setdefault(self.cause(tr), (e, tr))
                        continue
                    if e.kind == "call" and q.p.by_norm.get(e.name):
                        calls.setdefault(id(e), (e, []))[1].append(dict(st))
                    l = self.edge(e)
                    if l is not None and not dict(st).get(("n", l)):
                        bad.setdefault(e, (e, tr))
                        continue
                    r = self.step(e, dict(st))
                    if r is None:
                        continue
                    s2 = frozenset(r.items())
                    t2 = (tr, e)
                if asg:
                    old = dict(s2)
                    r = {k: v for k, v in old.items() if not (k[0] in "bn" and k[1] in asg)}
                    for ph, v in asg.items():
                        if v.op == "int":
                            r["b", ph] = v.a[0]
                        elif ("b", v.id) in old:
                            r["b", ph] = old["b", v.id]
                        if ph in self.edges and ("n", self.lst(v)) in old:
                            r["n", ph] = old["n", self.lst(v)]
                    s2 = frozenset(r.items())
                lv = live.get(m, ())
                s2 = frozenset((k, v) for k, v in s2 if k[0] in "scf" or k[1] in lv)
                if (m, s2) not in seen:
                    seen.add((m, s2))
                    todo.append((m, s2, t2))
        self.states = len(seen)
        return bad, list(calls.values())

    def steps(self):
        """one node per event; the last step of an edge also gives the joined flags their values"""
        if hasattr(self, "_steps"):
            return self._steps
        g = self.q.g
        flag = {}
        self.edges = {self.edge(e) for e in self.q.events()} - {None}
        for m, phs in g.phin.items():
            for ph, d in phs.items():
                if ph.id in self.edges or any(v.op == "int" and v.a[1] == "bool" for v in d.values()):
                    flag.setdefault(m, []).append((ph, d))
        out = {}
        new = 10**9
        for n, es in g.succ.items():
            for i, (ev, m) in enumerate(es):
                if m == -1 and ev is None:
                    continue
                cur = n
                evs = flat(ev) or [None]
                for k, e in enumerate(evs):
                    end = k == len(evs) - 1
                    if not end:
                        new += 1
                    asg = {ph.id: d[n, i] for ph, d in flag.get(m, ()) if (n, i) in d and d[n, i] is not ph} if end else {}
                    out.setdefault(cur, []).append((e, m if end else new, asg))
                    cur = new
        self._steps = out
        return out

    def live(self, succ):
        """per node, the optional values and lists a later branch asks about"""
        if hasattr(self, "_live"):
            return self._live

        def uses(e):
            if e is not None and self.edge(e) is not None:
                return {self.edge(e)}
            if e is None or e.kind != "br" or type(e.args[0]) is not Term:
                return set()
            t, v = self.option(*e.args[:2])
            out = {t.id}
            if v is None:
                for x in [t] + [y for y in t.a if isinstance(y, Term)]:
                    while x.op == "un":
                        x = x.a[1]
                    if x.op in ("call", "pure") and x.a[1] and type(x.a[1][0]) is Term:
                        out.add(self.lst(x.a[1][0]))
            elif t.op in ("call", "pure") and t.a[1]:
                out.add(self.lst(t.a[1][0]))
            return out

        pred = {}
        live = {}
        for n, es in succ.items():
            for e, m, asg in es:
                pred.setdefault(m, []).append((e, n, asg))
        todo = set(pred) | set(succ)
        us = {id(e): uses(e) for es in succ.values() for e, m, _ in es}
        while todo:
            m = todo.pop()
            lm = live.get(m, frozenset())
            for e, n, asg in pred.get(m, ()):
                add = set(lm) | us[id(e)] | {v.id for ph, v in asg.items() if ph in lm} | {self.lst(v) for ph, v in asg.items() if ph in lm and ph in self.edges}
                if e is not None and e.kind == "call" and e.res is not None:
                    add.discard(e.res.id)
                if not add <= live.get(n, frozenset()):
                    live[n] = live.get(n, frozenset()) | add
                    todo.add(n)
        self._live = live
        return live

    def params(self):
        b = self.q.root
        return [T("param", i).id for i in range(1, b.argc + 1) if STREAM.search(str(b.locals[i][0]))]

    def cause(self, tr):
        """the last branch before the panic"""
        while tr is not None:
            tr, e = tr
            if e.kind == "br":
                return e
        return None

    def about(self, e):
        """is the branch about a token that may be missing?"""
        if e is None or type(e.args[0]) is not Term:
            return False
        if e.kind == "call":
            return True
        t, v = self.option(*e.args[:2])
        if t.op in ("call", "pure") and t.a[1]:
            if PEEK.search(t.a[0]) or self.stream(t.a[1][0]) in self.known:
                return True
            return PART.search(t.a[0]) is not None and not "__CALLSITE" in self.q.c(t.a[1][0]) and not self.own(t.a[1][0])
        return False

    def own(self, t):
        """a list kept in a parameter (self), not one read from the stream"""
        t = Sizes(self.q).follow(t)
        f = False
        while t.op in ("fld", "out", "with", "upd"):
            f = f or t.op == "fld" and t.a[0].op != "call"
            t = t.a[0].a[1][t.a[1]] if t.op == "out" and t.a[0].op == "call" else t.a[0]
        return f and t.op in ("param", "phi")

    def doomed(self, c):
        """does the other outcome of the branch lead to a panic anyway?"""
        if c.kind == "call":
            return False
        succ = self.q.split()
        todo = [m for es in succ.values() for e, m in es if e is not None and e.kind == "br" and e.args[0] is c.args[0] and e.args[1] != c.args[1]]
        seen = set(todo)
        while todo:
            for e, m in succ.get(todo.pop(), ()):
                if e is not None and e.kind == "ret":
                    return False
                if m not in seen:
                    seen.add(m)
                    todo.append(m)
        return True


def run(ctx):
    p = ctx.load(["hemtt_preprocessor", "hemtt_workspace", "hemtt_common"])
    ctx.rule("no path reaches the failure of an expect/unwrap of peek(), next(), first() or last() unless the token was just seen; a function that relies on its caller is called only where the token is known")
    eff = Effects(p, lambda n, t, b: None)
    used, todo = set(), [p.find(P + "processor::Processor::run").key]
    while todo:
        k = todo.pop()
        if k not in used and p.body(k) is not None:
            used.add(k)
            todo += list(eff.direct(p.body(k))[1])
    roots = [b for b in p.fns.values() if b.key in used and b.norm.startswith(P) and "::{closure" not in b.norm and "::tests::" not in b.norm and any(STREAM.search(str(b.locals[i][0])) for i in range(1, b.argc + 1))]
    ctx.expect("streams", len(roots) >= 10, "functions reading the token stream", detail=str(len(roots)))
    need = {}
    res = []
    for b in roots:
        q = ctx.query(b, opaque=OPQ)
        tk = Tokens(q)
        bad, calls = tk.explore(False)
        mine = [(c, w) for c, w in bad.items() if tk.about(c) and not tk.doomed(c)]
        if mine:
            bad2, calls2 = tk.explore(True)
            if not any(tk.about(c) and not tk.doomed(c) for c in bad2):
                need[b.norm] = mine[0]
                calls = calls2
                mine = []
        res.append((b, tk, mine, calls))
    for b, tk, mine, calls in res:
        where = mine[0][1][0].where() if mine else b.norm
        ctx.expect("token", not mine, "a token is taken for granted that may not be there" if mine else "every token used was seen", [x for x in tk.q.trace(mine[0][1][1])] if mine else (), where, detail=f"{b.norm}: {tk.states} states")
        for e, sts in calls:
            if e.name in need:
                i = next((i for i, a in enumerate(e.args) if type(a) is Term and tk.stream(a) in tk.known), None)
                ok = i is not None and all(s.get(("s", tk.stream(e.args[i]))) is True for s in sts)
                ctx.expect("precondition", ok, f"{e.name.split('::')[-1]} relies on a token having been seen by the caller", (), e.where())
