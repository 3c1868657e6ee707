"""Abstract evaluator over resolved MIR.

Works on the JSON written by driver/.  A root function is evaluated without
running it: values are provenance terms (parameters, fields, constants, call
results at a site, aggregates, joins), callees defined in the workspace are
inlined by context, closures handed to library combinators are analysed as
"zero or more invocations", enum values and booleans that are still live are
kept apart at joins.  The result is an event graph: nodes are program points,
edges carry calls, branch decisions, stores through references and returns.
"""
import json, os, re, sys
from collections import deque

sys.setrecursionlimit(100000)

# ---------------------------------------------------------------- terms


class Term:
    __slots__ = ("op", "a", "id", "_h")
    _tab = {}
    _n = 0

    def __repr__(self):
        return pp(self)


def T(op, *a):
    key = (op,) + tuple(x.id if type(x) is Term else (tuple((y.id if type(y) is Term else y) for y in x) if type(x) is tuple else x) for x in a) + tuple(type(x) is Term for x in a)
    t = Term._tab.get(key)
    if t is None:
        t = Term()
        t.op = op
        t.a = a
        Term._n += 1
        t.id = ("t", Term._n)
        Term._tab[key] = t
    return t


def subterms(t):
    for x in t.a:
        if type(x) is Term:
            yield x
        elif type(x) is tuple:
            for y in x:
                if type(y) is Term:
                    yield y


def pp(t, d=0):
    if type(t) is not Term:
        return str(t)
    if d > 9:
        return "…"
    o, a = t.op, t.a
    if o == "int":
        return f"{a[0]}{a[1] if a[1] not in ('isize',) else ''}"
    if o == "str":
        return json.dumps(a[0])
    if o == "param":
        return f"arg{a[0]}"
    if o == "fld":
        v = f"{{{a[2]}}}" if a[2] else ""
        return f"{pp(a[0], d + 1)}{v}.{a[1]}"
    if o == "agg":
        nm = (a[0].split("::")[-1] + ("::" + a[1].split("::")[-1] if a[1] else "")) if a[0] not in ("arr", "tup") else ""
        fs = [f"{n}:{pp(v, d + 1)}" if n else pp(v, d + 1) for n, v in zip(a[2] or [""] * len(a[3]), a[3])]
        return f"{nm}{'[' if a[0] == 'arr' else '('}{', '.join(fs)}{']' if a[0] == 'arr' else ')'}"
    if o == "call":
        return f"{short(a[0])}@{a[2]}({', '.join(pp(x, d + 1) for x in a[1])})"
    if o == "pure":
        return f"{short(a[0])}({', '.join(pp(x, d + 1) for x in a[1])})"
    if o == "out":
        return f"out{a[1]}[{pp(a[0], d + 1)}]"
    if o == "phi":
        return f"φ{a[0]}.{a[1]}"
    if o == "bin":
        return f"({pp(a[1], d + 1)} {a[0]} {pp(a[2], d + 1)})"
    if o == "cast":
        return f"({pp(a[1], d + 1)} as {a[3]})"
    if o == "fn":
        return f"fn:{short(a[0])}"
    return f"{o}({', '.join(pp(x, d + 1) for x in a)})"


def short(p):
    p = strip_gen(p)
    m = re.match(r"<(.*) as (.*)>::(\w+)$", p)
    if m:
        return f"<{m.group(1).split('::')[-1]} as {m.group(2).split('::')[-1]}>::{m.group(3)}"
    return "::".join(p.split("::")[-2:])


_sg = {}


def strip_gen(p):
    """Remove ::<..> generic segments (not the <T as Trait> form)."""
    r = _sg.get(p)
    if r is not None:
        return r
    out = []
    i = 0
    n = len(p)
    while i < n:
        if p.startswith("::<", i):
            # an `impl` path segment such as ::<impl str>:: is kept
            if p.startswith("::<impl ", i):
                out.append(p[i])
                i += 1
                continue
            depth = 0
            j = i + 2
            while j < n:
                if p[j] == "<":
                    depth += 1
                elif p[j] == ">" and p[j - 1] != "-":
                    depth -= 1
                    if depth == 0:
                        break
                j += 1
            i = j + 1
            continue
        out.append(p[i])
        i += 1
    r = "".join(out)
    _sg[p] = r
    return r


def split_top(s):
    """the parts between top-level commas"""
    out, d, cur = [], 0, ""
    for ch in s:
        d += (ch in "<([{") - (ch in ">)]}")
        if ch == "," and d == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += ch
    return out + [cur.strip()]


def INT(v, ty="isize"):
    return T("int", v, ty)


UNIT = T("agg", "tup", "", (), ())
UNINIT = T("uninit")


def is_enum_agg(t):
    return t.op == "agg" and t.a[0] not in ("arr", "tup", "closure", "rawptr", "coroutine")


# ---------------------------------------------------------------- program


class Body:
    __slots__ = ("key", "file", "line", "kind", "argc", "pub", "parent", "gens", "ups", "locals", "blocks", "_live", "_addr", "_flags", "norm")

    def __init__(self, key, j):
        self.key = key
        self.norm = strip_gen(key)
        self.file = j["file"]
        self.line = j["line"]
        self.kind = j["kind"]
        self.argc = j["argc"]
        self.pub = j["pub"]
        self.parent = j["parent"]
        self.gens = j["gens"]
        self.ups = dict((i, n) for i, n in j["ups"])
        self.locals = j["locals"]
        self.blocks = j["blocks"]
        self._live = None
        self._addr = None
        self._flags = None

    # ---- liveness of locals at block entry
    def live(self):
        if self._live is None:
            self._compute()
        return self._live

    def addr(self):
        if self._live is None:
            self._compute()
        return self._addr

    def drop_flags(self):
        if self._flags is None:
            self._compute()
        return self._flags

    def _compute(self):
        n = len(self.blocks)
        use = [set() for _ in range(n)]
        dfn = [set() for _ in range(n)]
        addr = set()
        succ = [[] for _ in range(n)]

        def puse(i, p, d):
            # a place read (or a partial write) uses its base local
            if p[0] not in dfn[i]:
                use[i].add(p[0])
            for e in p[1:]:
                if type(e) is list and e[0] == "i" and e[1] not in dfn[i]:
                    use[i].add(e[1])

        def ouse(i, o):
            if o[0] in ("c", "m"):
                puse(i, o[1], None)

        boolconst = {}
        bad = set()
        for i, b in enumerate(self.blocks):
            for s in b["s"]:
                p, r = s[0], s[1]
                k = r[0]
                if k in ("use",):
                    ouse(i, r[1])
                elif k == "rep":
                    ouse(i, r[1])
                elif k == "ref":
                    puse(i, r[2], None)
                    if "*" not in r[2]:
                        if r[1]:
                            addr.add(r[2][0])
                elif k == "cast":
                    ouse(i, r[2])
                elif k == "bin":
                    ouse(i, r[2])
                    ouse(i, r[3])
                elif k == "un":
                    ouse(i, r[2])
                elif k == "discr":
                    puse(i, r[1], None)
                elif k == "agg":
                    for o in r[4]:
                        ouse(i, o)
                if len(p) == 1:
                    dfn[i].add(p[0])
                    if k == "use" and r[1][0] == "k" and r[1][1].get("t") == "bool":
                        boolconst.setdefault(p[0], 0)
                    else:
                        bad.add(p[0])
                else:
                    puse(i, p, None)
            t = b["t"]
            if t[0] == "goto":
                succ[i] = [t[1]]
            elif t[0] == "switch":
                ouse(i, t[1])
                succ[i] = [x[1] for x in t[2]] + [t[3]]
            elif t[0] == "drop":
                puse(i, t[1], None)
                succ[i] = [t[2]]
            elif t[0] == "call":
                if "op" in t[1]:
                    ouse(i, t[1]["op"])
                for o in t[2]:
                    ouse(i, o)
                if len(t[3]) == 1:
                    dfn[i].add(t[3][0])
                    bad.add(t[3][0])
                else:
                    puse(i, t[3], None)
                if t[4] is not None:
                    succ[i] = [t[4]]
            elif t[0] == "assert":
                ouse(i, t[1])
                succ[i] = [t[3]]
            elif t[0] == "ret":
                use[i].add(0)
        live = [set(u) for u in use]
        ch = True
        while ch:
            ch = False
            for i in range(n - 1, -1, -1):
                o = set()
                for s in succ[i]:
                    o |= live[s]
                nl = use[i] | (o - dfn[i])
                if nl != live[i]:
                    live[i] = nl
                    ch = True
        self._live = live
        self._addr = addr
        # drop flags: unnamed bool locals only assigned constants, tested only to guard drops
        flags = set(l for l in boolconst if l not in bad and l < len(self.locals) and self.locals[l][1] is None)
        for i, b in enumerate(self.blocks):
            t = b["t"]
            if t[0] == "switch" and t[1][0] in ("c", "m") and len(t[1][1]) == 1 and t[1][1][0] in flags:
                tg = [x[1] for x in t[2]] + [t[3]]
                if not any(self._leads_drop(x, y) for x in tg for y in tg if y != x):
                    flags.discard(t[1][1][0])
        self._flags = flags

    def _leads_drop(self, i, other):
        """the block only drops something and then goes on where the other one does"""
        b = self.blocks[i]
        return not b["s"] and b["t"][0] == "drop" and self._past(b["t"][2]) == self._past(other)

    def _past(self, i):
        for _ in range(8):
            b = self.blocks[i]
            if b["s"] or b["t"][0] != "goto":
                break
            i = b["t"][1]
        return i


class Program:
    def __init__(self, dirs, crates=None):
        self.fns = {}
        self.ext = {}
        self.adts = {}
        self.impls = []
        self.consts = {}
        self.crates = []
        if isinstance(dirs, str):
            dirs = [dirs]
        for d in dirs:
            for f in sorted(os.listdir(d)):
                if not f.endswith(".json"):
                    continue
                if crates and f[:-5] not in crates:
                    continue
                j = json.load(open(os.path.join(d, f)))
                self.crates.append(j["crate"])
                for k, v in j["fns"].items():
                    self.fns[k] = Body(k, v)
                for k, v in j["ext"].items():
                    if k not in self.ext:
                        self.ext[k] = Body(k, v)
                for k, v in j["consts"].items():
                    self.consts[k] = v
                for k, v in j["adts"].items():
                    if k not in self.adts or v["local"]:
                        self.adts[k] = v
                for im in j["impls"]:
                    im["crate"] = j["crate"]
                    self.impls.append(im)
        self.by_norm = {}
        for k, b in self.fns.items():
            self.by_norm.setdefault(b.norm, []).append(b)
        self.impl_of = {}
        self.derived = set()
        for im in self.impls:
            for m, p in im["items"].items():
                self.impl_of.setdefault((im["trait"], im["self"]), {})[m] = p
                if im["derived"]:
                    self.derived.add(p)
        self.ctor = {}
        for k, a in self.adts.items():
            for v in a["vs"]:
                if a["kind"] == "enum":
                    self.ctor[k + "::" + v[0]] = (k, v[0], tuple(f[0] for f in v[2]))
                else:
                    self.ctor[k] = (k, v[0], tuple(f[0] for f in v[2]))

    def find(self, norm, required=True):
        """Function by its path with generic arguments removed."""
        r = self.by_norm.get(norm)
        if not r:
            if required:
                raise Anchor(f"function `{norm}` not found in the analysed workspace")
            return None
        return r[0]

    def find_impl(self, trait_suffix, self_suffix, method):
        """Method of `impl <..trait_suffix> for <..self_suffix>`."""
        out = []
        for im in self.impls:
            if im["trait"].endswith(trait_suffix) and strip_gen(re.sub(r"<.*", "", im["self"])).endswith(self_suffix):
                p = im["items"].get(method)
                if p:
                    for k in (p,):
                        if k in self.fns:
                            out.append(self.fns[k])
        if not out:
            raise Anchor(f"impl of {trait_suffix} for {self_suffix} has no `{method}`")
        return out[0]

    def body(self, path):
        return self.fns.get(path) or self.ext.get(path)

    def variants(self, adt):
        a = self.adts.get(adt)
        if not a:
            return None
        return [v[0] for v in a["vs"]]

    def adt(self, name):
        a = self.adts.get(name)
        if a is None:
            raise Anchor(f"type `{name}` not found")
        return a


class Anchor(Exception):
    """A construct the rule is about does not exist (any more)."""


class Budget(Exception):
    pass


# ---------------------------------------------------------------- library models

# functions whose result is their first argument (ownership / view changes only)
IDENT = re.compile(
    r"(::Clone::clone|::ToOwned::to_owned|::Borrow::borrow|::BorrowMut::borrow_mut|::AsRef::as_ref|::AsMut::as_mut|::Deref::deref|::DerefMut::deref_mut"
    r"|::Into::into|::From::from|::IntoIterator::into_iter"
    r"|alloc::boxed::Box::new|alloc::boxed::Box::from|alloc::rc::Rc::new|alloc::sync::Arc::new|alloc::sync::Arc::clone|alloc::borrow::Cow::into_owned"
    r"|alloc::string::String::as_str|alloc::string::String::as_mut_str|::into_bytes|::as_bytes|::as_slice|::as_mut_slice|::into_boxed_str|::into_boxed_slice|::into_string|::as_mut_ptr|::as_ptr"
    r"|::to_vec|::into_vec|::iter|::iter_mut|::Iterator::cloned|::Iterator::copied|::Iterator::by_ref|::Iterator::fuse"
    r"|::Read::by_ref|::Write::by_ref|alloc::vec::Vec::leak|::as_deref|::to_path_buf|::as_path|::as_os_str|::into_owned|std::path::Path::new|::as_deref_mut"
    r"|::Iterator::peekable|::to_boxed_str|hint::black_box|convert::identity|::must_use|boxed::box_new|::into_inner_unchecked|box_assume_init_into_vec_unsafe|box_uninit_into_vec_unsafe"
    r"|alloc::rc::Rc::clone|core::pin::Pin::new|NonNull::as_ptr|NonNull::as_ref|NonNull::as_mut|core::cell::Cell::new|core::cell::RefCell::new)$"
)
TOSTRING = re.compile(r"::ToString::to_string$")
# pure library functions: result depends on the arguments only
PURE = re.compile(
    r"(::len|::is_empty|::to_lowercase|::to_uppercase|::to_ascii_lowercase|::to_ascii_uppercase|::PartialEq::eq|::PartialEq::ne|::PartialOrd::\w+|::Ord::\w+|::starts_with|::ends_with|::contains|::trim|::replace"
    r"|::TryFrom::try_from|::TryInto::try_into|::Index::index|::to_le_bytes|::to_be_bytes|::from_le_bytes|::from_be_bytes|::eq_ignore_ascii_case|::checked_\w+|::saturating_\w+|::wrapping_\w+|::is_ascii|::is_finite|::unsigned_abs"
    r"|::chars|::bytes|::lines|::Iterator::rev|::Iterator::enumerate|::Iterator::zip|::Iterator::skip|::Iterator::take|::Iterator::chain|::Iterator::collect|::Iterator::count|::keys|::values|::split|::trim_start|::trim_end|::trim_start_matches|::trim_end_matches|::strip_suffix|::strip_prefix|::first|::last|::get|::contains_key|::is_alphanumeric|::is_ascii_\w+|::to_string|::max|::min|::abs|::pow|::rem_euclid|::to_bits|::from_bits)$"
)
ONCE = re.compile(r"(thread::scoped::scope|scoped::Scope::spawn|thread::functions::spawn|::catch_unwind|LocalKey::with)$")
# closure is run at most once
ATMOST1 = re.compile(r"(or_insert_with|get_or_init|Once::call_once|or_insert_with_key|and_modify|get_or_insert_with)$")
CB_ELEM = re.compile(
    r"::(map|filter|filter_map|flat_map|inspect|for_each|try_for_each|any|all|find|find_map|position|rposition|take_while|skip_while|map_while|partition|max_by_key|min_by_key|sort_by_key|sort_unstable_by_key|sort_by_cached_key|par_sort_by_key|retain|retain_mut|sort_by|sort_unstable_by|max_by|min_by|dedup_by_key|is_sorted_by_key|is_sorted_by|group_by|chunk_by|split|trim_matches|windows|update|binary_search_by|binary_search_by_key|par_sort_by|sorted_by|sorted_by_key|sort_keys_by)$"
)
CB_FOLD = re.compile(r"::(fold|try_fold|rfold|reduce|scan)$")
NEXT = re.compile(r"::(Iterator::next|DoubleEndedIterator::next_back|Peekable::next_if|Peekable::peek|Iterator::last|Iterator::nth|Peekable::next)$")


def callname(f):
    """Canonical name of a callee: the trait method if it is one, else its path."""
    return strip_gen(f["fn"])


# ---------------------------------------------------------------- evaluation


class Event:
    __slots__ = ("kind", "name", "args", "res", "fn", "file", "line", "targs", "raw", "rty", "atys", "frame")

    def __init__(self, kind, name="", args=(), res=None, fn="", file="", line=0, targs=(), raw=None, rty="", atys=(), frame=0):
        self.kind = kind
        self.name = name
        self.args = args
        self.res = res
        self.fn = fn
        self.file = file
        self.line = line
        self.targs = targs
        self.raw = raw
        self.rty = rty
        self.atys = atys
        self.frame = frame

    def __repr__(self):
        if self.kind == "br":
            return f"br[{pp(self.args[0])} = {self.args[1]}] @{self.file}:{self.line}"
        if self.kind == "ret":
            return f"ret {pp(self.res)}"
        return f"{self.kind} {short(self.name)}({', '.join(pp(a) for a in self.args)}) @{self.file}:{self.line}"

    def where(self):
        return f"{self.fn} ({self.file}:{self.line})"


class Frame:
    __slots__ = ("id", "body", "parent", "pblock", "dest", "target", "subst", "depth", "chain", "cbnode", "cbkey", "mode")


class State:
    __slots__ = ("env", "facts")

    def __init__(self, env, facts):
        self.env = env
        self.facts = facts


class Node:
    __slots__ = ("id", "frame", "bb", "sub", "key", "ins", "state", "out", "runs", "acc", "info")


class Graph:
    """Event graph of one root function."""

    def __init__(self):
        self.succ = {}  # node -> [(event|None, node)]
        self.entry = 0
        self.info = {}
        self.phi = {}
        self.phin = {}  # node -> {phi: {(pred, index of its edge): value}}
        self.cbret = {}  # closure-taking call -> results of its closure
        self.cbsite = {}  # the same by (node, index of its edge)
        self.root = None
        self.inlined = set()
        self.opaque_calls = set()


class Eval:
    def __init__(self, prog, opaque=None, depth=10, budget=60000, maxpart=40, inline_ext=True, once=None, split_facts=None):
        self.p = prog
        self.opaque = opaque or (lambda key: False)
        self.maxdepth = depth
        self.budget = budget
        self.maxpart = maxpart
        self.inline_ext = inline_ext
        self.once = once
        self.split_facts = split_facts
        self.frames = {}
        self.nodes = {}
        self.nodelist = []
        self.points = {}
        self.work = deque()
        self.inwork = set()
        self.g = Graph()
        self.sites = {}
        self.phipath = {}
        self.collapsed = set()
        self.boxinit = {}

    # ---- frames / nodes
    def mkframe(self, body, parent, pblock, dest, target, subst, mode="call", cbkey=None):
        k = (parent.id if parent else None, pblock, body.key, mode, cbkey)
        f = self.frames.get(k)
        if f is None:
            f = Frame()
            f.id = len(self.frames)
            f.body = body
            f.parent = parent
            f.pblock = pblock
            f.depth = parent.depth + 1 if parent else 0
            f.chain = (parent.chain if parent else ()) + (body.key,)
            self.frames[k] = f
        f.dest = dest
        f.target = target
        f.subst = subst
        f.mode = mode
        f.cbkey = cbkey
        return f

    def livekey(self, frame, bb, sub, st):
        """Partition key: variants / bools of live locals of all active frames."""
        key = []
        f = frame
        lv = self.keep(frame, bb, sub, plain=True)
        env = st.env
        facts = st.facts
        for (fid, l), t in env.items():
            if (fid, l) not in lv:
                continue
            k = self.shape(t, facts, 0)
            if k:
                key.append((fid, l, k))
        key.sort(key=lambda x: (x[0], x[1]))
        if self.split_facts:
            fk = []
            for t, vs in facts.items():
                if len(vs) == 1 and self.split_facts(t):
                    fk.append((t.id, tuple(vs)))
            fk.sort(key=lambda x: x[0])
            key.append(("facts", tuple(fk)))
        return tuple(key)

    def shape(self, t, facts, d):
        if t.op == "agg":
            a0 = t.a[0]
            if a0 == "tup":
                if d >= 2 or len(t.a[3]) > 4:
                    return None
                r = tuple(self.shape(x, facts, d + 1) for x in t.a[3])
                return r if any(r) else None
            if a0 in ("arr", "closure", "rawptr", "coroutine"):
                return None
            ad = self.p.adts.get(a0)
            if ad and ad["kind"] == "enum":
                if d >= 2:
                    return t.a[1]
                return (t.a[1],) + tuple(self.shape(x, facts, d + 1) for x in t.a[3][:3])
            return None
        if t.op == "int" and t.a[1] == "bool":
            return "b%d" % t.a[0]
        if t.op == "arriter":
            return ("ai", t.a[1])
        if d == 0:
            fs = facts.get(t)
            if fs is not None and len(fs) == 1:
                return ("f",) + tuple(fs)
        return None

    def keep(self, frame, bb, sub, plain=False):
        """(frame,local) pairs live at the point, including callers' frames."""
        key = (frame.id, bb, sub is not None, plain)
        c = self.points.get(key)
        if c is not None:
            return c
        r = set()
        b = frame.body
        if bb is not None:
            if sub is None:
                ls = set(b.live()[bb])
            else:
                # in the middle of a call with callbacks: what the continuation needs plus the operands
                t = b.blocks[bb]["t"]
                ls = set(b.live()[t[4]]) if t[4] is not None else set()
                for o in t[2]:
                    if o[0] in ("c", "m"):
                        ls.add(o[1][0])
                if t[4] is not None and len(t[3]) == 1:
                    ls.discard(t[3][0])
        else:
            ls = {0}
        fl = b.drop_flags()
        ls = {l for l in ls if l not in fl} if plain else ls
        if not plain:
            ls |= b.addr()
        for l in ls:
            r.add((frame.id, l))
        if frame.parent is not None:
            pf = frame.parent
            if frame.mode == "cb":
                r |= self.keep(pf, frame.pblock, "cb", plain)
            else:
                pb = pf.body
                t = pb.blocks[frame.pblock]["t"]
                ls = set(pb.live()[t[4]]) if t[4] is not None else set()
                if len(t[3]) == 1:
                    ls.discard(t[3][0])
                fl = pb.drop_flags()
                ls = {l for l in ls if l not in fl} if plain else ls | pb.addr()
                for l in ls:
                    r.add((pf.id, l))
                up = self.keep_up(pf, plain)
                r |= up
        self.points[key] = r
        return r

    def keep_up(self, frame, plain):
        """what must stay alive above `frame` (callers of it)"""
        if frame.parent is None:
            return set()
        key = ("up", frame.id, plain)
        c = self.points.get(key)
        if c is not None:
            return c
        pf = frame.parent
        if frame.mode == "cb":
            r = set(self.keep(pf, frame.pblock, "cb", plain))
        else:
            pb = pf.body
            t = pb.blocks[frame.pblock]["t"]
            ls = set(pb.live()[t[4]]) if t[4] is not None else set()
            if len(t[3]) == 1:
                ls.discard(t[3][0])
            fl = pb.drop_flags()
            ls = {l for l in ls if l not in fl} if plain else ls | pb.addr()
            r = {(pf.id, l) for l in ls} | self.keep_up(pf, plain)
        self.points[key] = r
        return r

    def goto(self, outs, ev, frame, bb, sub, st):
        keep = self.keep(frame, bb, sub)
        root = self.rootid
        # values reachable through kept references stay
        env = {k: v for k, v in st.env.items() if k in keep or (k[0] == root and k[1] < 0)}
        # locals referred to by kept values through mutable references
        changed = True
        seen = set(env)
        todo = list(env.values())
        while todo:
            t = todo.pop()
            for loc in self.refs_in(t):
                k = (loc[0], loc[1])
                if k not in seen and k in st.env:
                    seen.add(k)
                    env[k] = st.env[k]
                    todo.append(st.env[k])
        st2 = State(env, st.facts)
        pt = (frame.id, bb, sub)
        if pt in self.collapsed:
            key = ()
        else:
            key = self.livekey(frame, bb, sub, st2)
            ks = self.partcount.setdefault(pt, set())
            ks.add(key)
            if len(ks) > self.maxpart:
                self.collapsed.add(pt)
                key = ()
        nk = (frame.id, bb, sub, key)
        n = self.nodes.get(nk)
        if n is None:
            n = Node()
            n.id = len(self.nodelist)
            n.frame = frame
            n.bb = bb
            n.sub = sub
            n.key = key
            n.ins = {}
            n.state = None
            n.out = []
            n.runs = 0
            n.acc = False
            self.nodes[nk] = n
            self.nodelist.append(n)
        outs.append((ev, n, st2))

    _refcache = {}

    def refs_in(self, t, d=0):
        c = self._refcache.get(t.id)
        if c is not None:
            return c
        r = ()
        if t.op == "ref":
            r = (t.a[0],)
        elif t.op in ("agg", "with", "upd"):
            acc = []
            for s in subterms(t):
                acc.extend(self.refs_in(s))
            r = tuple(acc)
        self._refcache[t.id] = r
        return r

    # ---- join
    def join_states(self, node, states):
        if len(states) == 1:
            return State(dict(states[0].env), dict(states[0].facts))
        keys = set(states[0].env)
        for s in states[1:]:
            keys &= set(s.env)
        env = {}
        for k in keys:
            vals = []
            for s in states:
                v = s.env[k]
                if v not in vals:
                    vals.append(v)
            env[k] = vals[0] if len(vals) == 1 else self.join_vals(node, k, vals, 0)
        f0 = states[0].facts
        facts = {}
        for t, vs in f0.items():
            u = set(vs)
            ok = True
            for s in states[1:]:
                o = s.facts.get(t)
                if o is None:
                    ok = False
                    break
                u |= o
            if ok:
                facts[t] = frozenset(u)
        return State(env, facts)

    def join_vals(self, node, path, vals, d):
        f = vals[0]
        if f.op == "agg" and d < 5 and all(v.op == "agg" and v.a[0] == f.a[0] and v.a[1] == f.a[1] and len(v.a[3]) == len(f.a[3]) for v in vals) and f.a[0] != "arr":
            fs = []
            for i in range(len(f.a[3])):
                xs = []
                for v in vals:
                    if v.a[3][i] not in xs:
                        xs.append(v.a[3][i])
                fs.append(xs[0] if len(xs) == 1 else self.join_vals(node, (path, i), xs, d + 1))
            return T("agg", f.a[0], f.a[1], f.a[2], tuple(fs))
        ph = T("phi", node.id, str(path))
        self.phipath[ph] = path
        alts = self.g.phi.setdefault(ph, set())
        if not node.acc:
            alts.clear()
        for v in vals:
            if v is not ph:
                alts.add(v)
        if not alts:
            alts.add(ph)
        return ph

    # ---- memory
    def read_loc(self, st, loc):
        v = st.env.get((loc[0], loc[1]))
        if v is None:
            return T("unk", "dead")
        for e in loc[2]:
            v = self.proj(st, v, e)
        return v

    def proj(self, st, v, e):
        k = e[0]
        if v.op == "ref" and k != "*":
            v = self.read_loc(st, v.a[0])
        if k == "f":
            return self.field(st, v, e[1], e[2], e[3])
        if k == "ix":
            return self.index(v, e[1])
        return v

    def field(self, st, v, idx, name, variant):
        n = 0
        while True:
            n += 1
            if v.op == "ref":
                v = self.read_loc(st, v.a[0])
                continue
            if v.op == "agg":
                names = v.a[2]
                if v.a[0] in ("tup", "closure", "arr", "rawptr", "coroutine"):
                    if idx < len(v.a[3]):
                        return v.a[3][idx]
                elif not variant or v.a[1] == variant:
                    if name in names:
                        return v.a[3][names.index(name)]
                return T("unk", "field")
            if v.op == "with":
                base, nm, var, val = v.a
                if nm == name:
                    return val
                v = base
                continue
            if v.op == "pure" and v.a[0].startswith("checked:"):
                return v.a[1][0] if idx == 0 else T("pure", "overflow", (v.a[1][0],))
            return T("fld", v, name, variant or "")

    def index(self, v, i):
        if v.op == "agg" and v.a[0] == "arr" and i.op == "int" and 0 <= i.a[0] < len(v.a[3]):
            return v.a[3][i.a[0]]
        return T("idx", v, i)

    def write_loc(self, st, loc, val):
        k = (loc[0], loc[1])
        if not loc[2]:
            st.env[k] = val
            return
        base = st.env.get(k, UNINIT)
        st.env[k] = self.update(st, base, loc[2], val)

    def update(self, st, base, path, val):
        if not path:
            return val
        e = path[0]
        if base.op == "ref":
            loc = base.a[0]
            self.write_loc(st, (loc[0], loc[1], loc[2] + tuple(path)), val)
            return base
        if e[0] == "f":
            idx, name, variant = e[1], e[2], e[3]
            if base.op == "agg":
                names = base.a[2]
                if base.a[0] in ("tup", "closure", "arr"):
                    if idx < len(base.a[3]):
                        fs = list(base.a[3])
                        fs[idx] = self.update(st, fs[idx], path[1:], val)
                        return T("agg", base.a[0], base.a[1], names, tuple(fs))
                elif name in names:
                    fs = list(base.a[3])
                    i = names.index(name)
                    fs[i] = self.update(st, fs[i], path[1:], val)
                    return T("agg", base.a[0], base.a[1], names, tuple(fs))
            inner = self.update(st, self.field(st, base, idx, name, variant), path[1:], val) if len(path) > 1 else val
            if base.op == "with" and base.a[1] == name:
                base = base.a[0]
            return T("with", base, name, variant, inner)
        inner = self.update(st, self.index(base, e[1]), path[1:], val) if len(path) > 1 else val
        if base.op == "agg" and base.a[0] == "arr" and e[1].op == "int" and 0 <= e[1].a[0] < len(base.a[3]):
            fs = list(base.a[3])
            fs[e[1].a[0]] = inner
            return T("agg", base.a[0], base.a[1], base.a[2], tuple(fs))
        if self.term_depth(base, 40) >= 40:
            base = T("unk", "deep")
        return T("upd", base, e[1], inner)

    _dep = {}

    def term_depth(self, t, lim):
        d = self._dep.get(t.id)
        if d is None:
            d = 1
            stack = [(t, 0)]
            # iterative post-order
            order = []
            seen = set()
            st = [t]
            while st:
                x = st.pop()
                if x.id in self._dep or x.id in seen:
                    continue
                seen.add(x.id)
                order.append(x)
                st.extend(subterms(x))
            for x in reversed(order):
                m = 0
                for s in subterms(x):
                    m = max(m, self._dep.get(s.id, 1))
                self._dep[x.id] = m + 1
            d = self._dep[t.id]
        return d

    def resolve(self, st, frame, place):
        """place -> ('loc', loc) when it denotes tracked memory, or ('val', term) for memory behind an unknown pointer."""
        loc = (frame.id, place[0], ())
        val = None
        variant = ""
        for e in place[1:]:
            if e == "b":
                continue
            if e == "*":
                cur = val if val is not None else self.read_loc(st, loc)
                if cur.op == "ref":
                    loc = cur.a[0]
                    val = None
                else:
                    # transparent: a shared borrow is represented by the value itself
                    val = cur
                continue
            k = e[0]
            if k == "v":
                variant = e[2]
                continue
            if k == "f":
                pe = ("f", e[1], e[2], variant)
                variant = ""
            elif k == "i":
                iv = st.env.get((frame.id, e[1]), T("unk", "ix"))
                pe = ("ix", iv)
            elif k == "c":
                pe = ("ix", INT(e[1], "usize") if not e[2] else T("fromend", e[1]))
            elif k == "s":
                pe = ("ix", T("sub", e[1], e[2], e[3]))
            else:
                pe = ("ix", T("unk", "proj"))
            if val is not None:
                val = self.proj(st, val, pe)
                if val.op == "ref" and False:
                    loc = val.a[0]
                    val = None
            else:
                # stop at references stored in fields: resolved at the next deref
                loc = (loc[0], loc[1], loc[2] + (pe,))
        return ("val", val) if val is not None else ("loc", loc)

    def read(self, st, frame, place):
        k, x = self.resolve(st, frame, place)
        return self.read_loc(st, x) if k == "loc" else x

    def snap(self, st, t, d=0):
        if t.op == "ref":
            if d > 8:
                return T("unk", "ref")
            return self.snap(st, self.read_loc(st, t.a[0]), d + 1)
        if t.op in ("agg", "with", "upd") and self.refs_in(t):
            if t.op == "agg":
                return T("agg", t.a[0], t.a[1], t.a[2], tuple(self.snap(st, x, d + 1) for x in t.a[3]))
            if t.op == "with":
                return T("with", self.snap(st, t.a[0], d + 1), t.a[1], t.a[2], self.snap(st, t.a[3], d + 1))
            return T("upd", self.snap(st, t.a[0], d + 1), t.a[1], self.snap(st, t.a[2], d + 1))
        return t

    # ---- constants / operands
    def const(self, c, frame):
        if "fn" in c:
            r = c.get("r") or c["fn"]
            return T("fn", r, c["fn"], tuple(c.get("a", ())))
        if "i" in c:
            return T("int", c["i"], c["t"])
        if "s" in c:
            return T("str", c["s"])
        if "arr" in c:
            its = c["arr"]
            if its and all("i" in x and x.get("t") == "u8" for x in its):
                return T("bytes", bytes(x["i"] for x in its).decode("latin1"))
            return T("agg", "arr", "", (), tuple(self.const(x, frame) for x in its))
        if "tup" in c:
            return T("agg", "tup", "", (), tuple(self.const(x, frame) for x in c["tup"]))
        if "adt" in c:
            return T("agg", c["adt"], c["v"], tuple(c["fn_"]), tuple(self.const(x, frame) for x in c["fs"]))
        if "ref" in c:
            return self.const(c["ref"], frame)
        if "static" in c:
            return T("static", c["static"])
        if "closure" in c:
            return T("agg", "closure", c["closure"], (), ())
        if "name" in c:
            return T("const", c["name"])
        t = c.get("?", "const")
        if t.startswith("core::option::Option<"):
            # an unnamed constant of a generic Option type has no payload to hold: it is None
            return T("agg", "core::option::Option", "None", (), ())
        return T("unk", t)

    def operand(self, st, frame, o):
        if o[0] == "k":
            return self.const(o[1], frame)
        return self.read(st, frame, o[1])

    def deref_val(self, st, t):
        n = 0
        while t.op == "ref" and n < 10:
            t = self.read_loc(st, t.a[0])
            n += 1
        return t

    # ---- rvalues
    NARROW = {"u8": 8, "u16": 16, "u32": 32, "u64": 64, "usize": 64, "i8": 8, "i16": 16, "i32": 32, "i64": 64, "isize": 64, "u128": 128, "i128": 128}

    def rvalue(self, st, frame, r, line):
        k = r[0]
        if k == "use":
            return self.operand(st, frame, r[1])
        if k == "ref":
            kk, x = self.resolve(st, frame, r[2])
            if r[1]:
                if kk == "loc":
                    v = self.read_loc(st, x)
                    if v.op == "ref" and not x[2] and False:
                        return v
                    return T("ref", x)
                return x
            v = self.read_loc(st, x) if kk == "loc" else x
            return v
        if k == "rep":
            return T("rep", self.operand(st, frame, r[1]), r[2])
        if k == "cast":
            kind, op, f, t = r[1], r[2], r[3], r[4]
            if kind == "Transmute" and op[0] in ("c", "m") and "b" in op[1]:
                pl = op[1][: op[1].index("b")]
                kk, x = self.resolve(st, frame, pl)
                return T("ref", x) if kk == "loc" else x
            v = self.operand(st, frame, op)
            if kind.startswith("coerce") or kind.startswith("PtrToPtr") or kind == "Transmute":
                return v
            v = self.deref_val(st, v)
            if v.op == "int" and t in self.NARROW:
                n = v.a[0]
                w = self.NARROW[t]
                n &= (1 << w) - 1
                if t[0] == "i" and n >= 1 << (w - 1):
                    n -= 1 << w
                return T("int", n, t)
            return T("cast", kind, v, self.sub(frame, f), self.sub(frame, t))
        if k == "bin":
            op = r[1]
            a = self.deref_val(st, self.operand(st, frame, r[2]))
            b = self.deref_val(st, self.operand(st, frame, r[3]))
            ov = op.endswith("WithOverflow")
            o2 = op[:-12] if ov else op
            if o2.endswith("Unchecked"):
                o2 = o2[:-9]
            v = self.binop(o2, a, b, r[4])
            return T("pure", "checked:" + o2, (v,)) if ov else v
        if k == "un":
            a = self.deref_val(st, self.operand(st, frame, r[2]))
            if r[1] == "PtrMetadata":
                return T("pure", "len", (a,))
            if a.op == "int" and a.a[1] == "bool" and r[1] == "Not":
                return T("int", 1 - a.a[0], "bool")
            return T("un", r[1], a)
        if k == "discr":
            v = self.deref_val(st, self.read(st, frame, r[1]))
            if v.op == "with":
                b = v
                while b.op == "with":
                    b = b.a[0]
                v = b
            adt = r[2]
            if v.op == "agg":
                ad = self.p.adts.get(adt)
                if ad:
                    for vn, dv, _ in ad["vs"]:
                        if vn == v.a[1]:
                            return T("int", dv, "isize")
            fs = st.facts.get(v)
            if fs is not None and len(fs) == 1:
                ad = self.p.adts.get(adt)
                for vn, dv, _ in ad["vs"] if ad else []:
                    if vn in fs:
                        return T("int", dv, "isize")
            return T("discr", v, adt)
        if k == "agg":
            kind, vn, names, ops = r[1], r[2], r[3], r[4]
            vals = tuple(self.operand(st, frame, o) for o in ops)
            if kind == "arr" and vals and all(v.op == "int" and v.a[1] == "u8" for v in vals):
                return T("bytes", bytes(v.a[0] for v in vals).decode("latin1"))
            return T("agg", kind, vn, tuple(names), vals)
        return T("unk", k)

    def binop(self, op, a, b, ty):
        if a.op == "int" and b.op == "int":
            x, y = a.a[0], b.a[0]
            try:
                if op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
                    r = {"Eq": x == y, "Ne": x != y, "Lt": x < y, "Le": x <= y, "Gt": x > y, "Ge": x >= y}[op]
                    return T("int", int(r), "bool")
                r = {"Add": x + y, "Sub": x - y, "Mul": x * y, "BitAnd": x & y, "BitOr": x | y, "BitXor": x ^ y, "Shl": x << (y & 127), "Shr": x >> (y & 127)}.get(op)
                if r is not None and op in ("Add", "Sub", "Mul") and ty in self.NARROW:
                    return T("int", r, ty)
                if r is not None:
                    w = self.NARROW.get(ty)
                    if w and ty[0] == "u":
                        r &= (1 << w) - 1
                    return T("int", r, ty)
            except Exception:
                pass
        return T("bin", op, a, b)

    def sub(self, frame, s):
        m = frame.subst
        if not m or not s:
            return s
        return re.sub(r"\b([A-Z]\w*)\b(?!::)", lambda x: m.get(x.group(1), x.group(1)), s)

    # ---- run
    def run(self, root):
        self.partcount = {}
        body = root if isinstance(root, Body) else self.p.find(root)
        f = self.mkframe(body, None, None, None, None, {})
        self.rootid = f.id
        self.g.root = body
        env = {}
        cl_env = None
        for i in range(1, body.argc + 1):
            ty = body.locals[i][0]
            p = T("param", i)
            if ty.startswith("&mut ") or re.match(r"&'\w+ mut ", ty):
                env[(f.id, -i)] = p
                env[(f.id, i)] = T("ref", (f.id, -i, ()))
            else:
                env[(f.id, i)] = p
        # root frame bookkeeping: pseudo locals are always kept
        outs = []
        self.goto(outs, None, f, 0, None, State(env, {}))
        n = outs[0][1]
        n.ins[("root", 0)] = outs[0][2]
        self.push(n)
        steps = 0
        while self.work:
            n = self.work.popleft()
            self.inwork.discard(n.id)
            steps += 1
            if steps > self.budget:
                raise Budget(f"evaluation of {body.key} exceeded {self.budget} steps")
            self.step(n)
        self.g.entry = 0
        # keep what is reachable from the entry
        seen = {0}
        st = [0]
        while st:
            x = st.pop()
            es = [(ev, m.id) for ev, m in self.nodelist[x].out]
            self.g.succ[x] = es
            for ev, m in es:
                if m not in seen:
                    seen.add(m)
                    st.append(m)
        for ph, path in self.phipath.items():
            n = self.nodelist[ph.a[0]]
            if n.id not in seen:
                continue
            m = {}
            for k, s in n.ins.items():
                if k[0] != "root" and k[0] not in seen:
                    continue
                v = self.along(s, path)
                if v is not None:
                    m[k] = v
            self.g.phin.setdefault(n.id, {})[ph] = m
            if m and all(k in m for k in n.ins if k[0] == "root" or k[0] in seen):
                self.g.phi[ph] = set(m.values())
        for res, m in self.g.cbsite.items():
            m = self.g.cbsite[res] = {k: v for k, v in m.items() if k[0] in seen and k[1] < len(self.g.succ[k[0]])}
            if m:
                self.g.cbret[res] = set(m.values())
        self.g.n_nodes = len(seen)
        self.g.steps = steps
        return self.g

    def along(self, s, path):
        """the value a joined variable has in one incoming state"""
        if len(path) == 2 and isinstance(path[0], tuple):
            v = self.along(s, path[0])
            return v.a[3][path[1]] if v is not None and v.op == "agg" and path[1] < len(v.a[3]) else None
        return s.env.get(path)

    def push(self, n):
        if n.id not in self.inwork:
            self.inwork.add(n.id)
            self.work.append(n)

    def step(self, n):
        states = list(n.ins.values())
        if not states:
            return
        n.runs += 1
        if n.runs > 25:
            n.acc = True
        st = self.join_states(n, states)
        if n.state is not None and n.state.env == st.env and n.state.facts == st.facts:
            return
        if n.acc and n.state is not None:
            # accumulate to force convergence
            old = n.state
            st = self.join_states(n, [old, st])
            if old.env == st.env and old.facts == st.facts:
                return
        if n.runs > 200:
            raise Budget("no convergence at " + n.frame.body.key)
        n.state = State(dict(st.env), dict(st.facts))
        outs = []
        self.exec(n, st, outs)
        old_targets = {}
        for i, (ev, m) in enumerate(n.out):
            old_targets.setdefault(m.id, []).append(i)
        n.out = [(ev, m) for ev, m, _ in outs]
        newk = set()
        for i, (ev, m, s) in enumerate(outs):
            k = (n.id, i)
            newk.add((m.id, k))
            if m.bb is None and m.sub == "end":
                continue
            prev = m.ins.get(k)
            if prev is None or prev.env != s.env or prev.facts != s.facts:
                m.ins[k] = s
                self.push(m)
        for mid, idxs in old_targets.items():
            m = self.nodelist[mid]
            for i in idxs:
                if (mid, (n.id, i)) not in newk and (n.id, i) in m.ins:
                    del m.ins[(n.id, i)]
                    self.push(m)

    def end(self, outs, ev, frame):
        nk = (frame.id, None, "end", id(frame))
        n = self.nodes.get(nk)
        if n is None:
            n = Node()
            n.id = len(self.nodelist)
            n.frame = frame
            n.bb = None
            n.sub = "end"
            n.key = ()
            n.ins = {}
            n.state = None
            n.out = []
            n.runs = 0
            n.acc = False
            self.nodes[nk] = n
            self.nodelist.append(n)
        outs.append((ev, n, None))

    def site(self, frame, bb):
        k = (frame.id, bb)
        s = self.sites.get(k)
        if s is None:
            s = len(self.sites)
            self.sites[k] = s
        return s

    def exec(self, n, st, outs):
        frame = n.frame
        body = frame.body
        if type(n.sub) is tuple:
            return self.exec_cb(n, st, outs)
        b = body.blocks[n.bb]
        evs = []
        for s in b["s"]:
            place, r, line = s
            if r[0] == "setd":
                continue
            v = self.rvalue(st, frame, r, line)
            self.assign(st, frame, place, v, evs, line)
        t = b["t"]
        k = t[0]
        if evs:
            # stores are rare; chain them through pseudo nodes would be overkill: attach as a list event
            pre = Event("stores", args=tuple(evs), fn=body.norm, file=body.file, line=evs[0].line)
        else:
            pre = None
        if k == "goto":
            self.goto(outs, pre, frame, t[1], None, st)
        elif k == "drop":
            self.goto(outs, pre, frame, t[2], None, st)
        elif k == "assert":
            self.goto(outs, pre, frame, t[3], None, st)
        elif k == "switch":
            self.switch(n, st, outs, t, pre)
        elif k == "ret":
            self.ret(n, st, outs, pre)
        elif k == "call":
            self.call(n, st, outs, t, pre)
        # unreachable: no successors

    def assign(self, st, frame, place, v, evs, line):
        kk, x = self.resolve(st, frame, place)
        if kk == "loc":
            self.write_loc(st, x, v)
        else:
            root = x
            while root.op in ("fld", "cast"):
                root = root.a[1] if root.op == "cast" else root.a[0]
            if root.op == "call" and root.a[0].endswith("Box::new_uninit"):
                # vec![..]: the boxed array is initialised through this pointer
                self.boxinit[root] = self.snap(st, v)
                return
            evs.append(Event("store", args=(x, self.snap(st, v)), fn=frame.body.norm, file=frame.body.file, line=line))

    def merge_ev(self, pre, ev):
        if pre is None:
            return ev
        if ev is None:
            return pre
        e = Event("seq", args=(pre, ev))
        return e

    def switch(self, n, st, outs, t, pre):
        frame = n.frame
        body = frame.body
        op = t[1]
        if op[0] in ("c", "m") and len(op[1]) == 1 and op[1][0] in body.drop_flags():
            for x in [y[1] for y in t[2]] + [t[3]]:
                self.goto(outs, pre, frame, x, None, State(dict(st.env), dict(st.facts)))
            return
        v = self.deref_val(st, self.operand(st, frame, op))
        if v.op == "int":
            m = v.a[0]
            for val, bb in t[2]:
                if self.same_int(val, m, t[4]):
                    return self.goto(outs, pre, frame, bb, None, st)
            return self.goto(outs, pre, frame, t[3], None, st)
        fs = st.facts.get(v) if v.op != "discr" else None
        if v.op == "discr":
            ad = self.p.adts.get(v.a[1])
            tm = v.a[0]
            known = st.facts.get(tm)
            allv = [(x[0], x[1]) for x in ad["vs"]] if ad else []
            byd = {d: nm for nm, d in allv}
            taken = set()
            for val, bb in t[2]:
                vn = byd.get(val)
                if vn is None:
                    vn = str(val)
                taken.add(vn)
                if known is not None and vn not in known:
                    continue
                if self.unreach(body, bb):
                    continue
                s2 = State(dict(st.env), dict(st.facts))
                s2.facts[tm] = frozenset([vn])
                ev = Event("br", args=(tm, vn, v.a[1]), fn=body.norm, file=body.file, line=t[5], raw="variant", frame=frame.id)
                self.goto(outs, self.merge_ev(pre, ev), frame, bb, None, s2)
            rest = frozenset(nm for nm, d in allv if nm not in taken and (known is None or nm in known))
            if (rest or not allv) and not self.unreach(body, t[3]):
                s2 = State(dict(st.env), dict(st.facts))
                if rest:
                    s2.facts[tm] = rest
                lab = next(iter(rest)) if len(rest) == 1 else ("|".join(sorted(rest)) if rest else "?")
                ev = Event("br", args=(tm, lab, v.a[1]), fn=body.norm, file=body.file, line=t[5], raw="variant", frame=frame.id)
                self.goto(outs, self.merge_ev(pre, ev), frame, t[3], None, s2)
            return
        if t[4] == "bool":
            pick = self.on_discr(v)
            if pick is not None:
                # is_some, matches! and the like: a branch on the variant
                tm, adt, yes, no = pick
                known = st.facts.get(tm)
                for val, bb in list(t[2]) + [(1, t[3])]:
                    vs = [x for x in (yes if val else no) if known is None or x in known]
                    if not vs or self.unreach(body, bb):
                        continue
                    s2 = State(dict(st.env), dict(st.facts))
                    s2.facts[tm] = frozenset(vs)
                    s2.facts[v] = frozenset([val])
                    self.imply(s2, v, val)
                    ev = Event("br", args=(tm, "|".join(sorted(vs)), adt), fn=body.norm, file=body.file, line=t[5], raw="variant", frame=frame.id)
                    self.goto(outs, self.merge_ev(pre, ev), frame, bb, None, s2)
                return
            known = st.facts.get(v)
            if known is None:
                known = self.compared(st, v)
            for val, bb in list(t[2]) + [(1, t[3])]:
                if known is not None and val not in known:
                    continue
                if self.unreach(body, bb):
                    continue
                s2 = State(dict(st.env), dict(st.facts))
                s2.facts[v] = frozenset([val])
                self.imply(s2, v, val)
                ev = Event("br", args=(v, bool(val), "bool"), fn=body.norm, file=body.file, line=t[5], raw="bool", frame=frame.id)
                self.goto(outs, self.merge_ev(pre, ev), frame, bb, None, s2)
            return
        seen = set()
        known = st.facts.get(v)
        for val, bb in t[2]:
            seen.add(val)
            if known is not None and val not in known:
                continue
            s2 = State(dict(st.env), dict(st.facts))
            s2.facts[v] = frozenset([val])
            ev = Event("br", args=(v, val, t[4]), fn=body.norm, file=body.file, line=t[5], raw="int", frame=frame.id)
            self.goto(outs, self.merge_ev(pre, ev), frame, bb, None, s2)
        if not self.unreach(body, t[3]) and not (known is not None and known <= seen):
            ev = Event("br", args=(v, ("other", tuple(sorted(seen))), t[4]), fn=body.norm, file=body.file, line=t[5], raw="int", frame=frame.id)
            self.goto(outs, self.merge_ev(pre, ev), frame, t[3], None, st)

    def on_discr(self, v):
        """(value, type, variants when true, variants when false) of a comparison of a discriminant
        with a constant"""
        pol = True
        while v.op == "un" and v.a[0] == "Not":
            v, pol = v.a[1], not pol
        if v.op != "bin" or v.a[0] not in ("Eq", "Ne"):
            return None
        x, y = v.a[1], v.a[2]
        if y.op == "discr":
            x, y = y, x
        if x.op != "discr" or y.op != "int":
            return None
        ad = self.p.adts.get(x.a[1])
        if not ad:
            return None
        same = [n for n, d, _ in ad["vs"] if d == y.a[0]]
        rest = [n for n, d, _ in ad["vs"] if d != y.a[0]]
        return (x.a[0], x.a[1], same, rest) if pol is (v.a[0] == "Eq") else (x.a[0], x.a[1], rest, same)

    def imply(self, st, v, val):
        # comparison of a discriminant with a constant decides the variant
        if v.op == "un" and v.a[0] == "Not":
            st.facts[v.a[1]] = frozenset([1 - val])
            self.imply(st, v.a[1], 1 - val)
        elif v.op == "bin" and v.a[0] in ("Eq", "Ne"):
            st.facts[T("bin", "Ne" if v.a[0] == "Eq" else "Eq", v.a[1], v.a[2])] = frozenset([1 - val])
            if bool(val) is (v.a[0] == "Eq") and v.a[2].op == "int" and v.a[1].op != "int":
                st.facts[v.a[1]] = frozenset([v.a[2].a[0]])

    def compared(self, st, v):
        """truth of a comparison with a constant of a value that is known"""
        pol = 1
        while v.op == "un" and v.a[0] == "Not":
            v, pol = v.a[1], 1 - pol
        if v.op != "bin" or v.a[0] not in ("Eq", "Ne") or v.a[2].op != "int":
            return None
        k = st.facts.get(v.a[1])
        if not k or len(k) != 1 or not isinstance(next(iter(k)), int) or isinstance(next(iter(k)), bool):
            return None
        r = (next(iter(k)) == v.a[2].a[0]) is (v.a[0] == "Eq")
        return frozenset([int(r) if pol else 1 - int(r)])

    def same_int(self, val, m, ty):
        if val == m:
            return True
        w = self.NARROW.get(ty)
        return bool(w) and (m & ((1 << w) - 1)) == val

    def unreach(self, body, bb):
        b = body.blocks[bb]
        return b["t"][0] == "unreach" and not b["s"]

    def ret(self, n, st, outs, pre):
        frame = n.frame
        v = st.env.get((frame.id, 0), UNIT)
        if frame.parent is None:
            ev = Event("ret", res=self.snap(st, v), fn=frame.body.norm, file=frame.body.file, line=frame.body.line, raw=self.root_outs(st))
            ev.targs = dict(st.facts)
            self.end(outs, self.merge_ev(pre, ev), frame)
            return
        pf = frame.parent
        if frame.mode == "cb":
            s2 = State(dict(st.env), dict(st.facts))
            key = frame.cbkey
            self.g.cbsite.setdefault(key[1], {})[(n.id, len(outs))] = self.snap(st, v)
            if key[2] in ("once", "forward"):
                self.assign(s2, pf, frame.dest, v if key[2] == "forward" else key[3], [], 0)
                self.goto(outs, pre, pf, frame.target, None, s2)
            else:
                self.goto_cb(outs, pre, pf, frame.pblock, s2, key[1])
            return
        s2 = State(dict(st.env), dict(st.facts))
        evs = []
        self.assign(s2, pf, frame.dest, v, evs, 0)
        if frame.target is not None:
            self.goto(outs, pre, pf, frame.target, None, s2)

    def root_outs(self, st):
        r = {}
        for (fid, l), v in st.env.items():
            if fid == self.rootid and l < 0:
                r[-l] = self.snap(st, v)
        return r

    # ---- calls
    def call(self, n, st, outs, t, pre):
        frame = n.frame
        body = frame.body
        f, ops, dest, target, line, atys, rty = t[1], t[2], t[3], t[4], t[5], t[6], t[7]
        args = [self.operand(st, frame, o) for o in ops]
        targs = ()
        if "fn" in f:
            name = strip_gen(f["fn"])
            key = f.get("r") or f["fn"]
            targs = tuple(self.sub(frame, a) for a in f.get("a", ()))
        else:
            fv = self.deref_val(st, self.operand(st, frame, f["op"])) if "op" in f else T("unk", "fn")
            if fv.op == "fn":
                f = {"fn": fv.a[1], "r": fv.a[0], "a": list(fv.a[2])}
                name = strip_gen(f["fn"])
                key = f["r"]
                targs = tuple(self.sub(frame, a) for a in f["a"])
            elif fv.op == "agg" and fv.a[0] == "closure":
                return self.inline_closure(n, st, outs, pre, fv, args, dest, target)
            else:
                name = "fnptr"
                key = "fnptr"
                args = [fv] + args
        # invoking a closure / function value
        if name in ("core::ops::function::FnOnce::call_once", "core::ops::function::FnMut::call_mut", "core::ops::function::Fn::call"):
            fv = self.deref_val(st, args[0])
            tup = args[1]
            if tup.op == "agg" and tup.a[0] == "tup":
                cargs = list(tup.a[3])
            else:
                cargs = [tup]
            if fv.op == "agg" and fv.a[0] == "closure":
                return self.inline_closure(n, st, outs, pre, fv, cargs, dest, target, args[0])
            if fv.op == "fn":
                return self.apply_fn(n, st, outs, pre, fv, cargs, dest, target, line, rty)
        # constructors used as functions
        c = self.p.ctor.get(strip_gen(key))
        if c is not None and len(c[2]) == len(args):
            v = T("agg", c[0], c[1], c[2], tuple(args))
            return self.finish(n, st, outs, pre, dest, target, v)
        callee = self.lookup(frame, f, key, targs)
        if callee is not None and target is not None and self.may_inline(frame, callee, name):
            return self.inline(n, st, outs, pre, callee, args, dest, target, f, targs)
        return self.opaque_call(n, st, outs, pre, name, key, args, dest, target, line, targs, rty, atys)

    def lookup(self, frame, f, key, targs):
        b = self.p.body(key)
        if b is not None and not ("tr" in f and "r" not in f and f.get("k") is None):
            if "tr" in f and "r" not in f and f.get("k") != "item":
                pass
            else:
                return b
        if "tr" in f and "r" not in f and targs:
            s = targs[0].lstrip("&")
            s = re.sub(r"^(mut |'\w+ )+", "", s)
            m = f["fn"].split("::")[-1]
            im = self.p.impl_of.get((f["tr"], s)) or self.p.impl_of.get((f["tr"], targs[0]))
            if im and m in im:
                return self.p.body(im[m])
        return None

    def may_inline(self, frame, callee, name):
        k = callee.key
        if callee.norm in self.p_opaque_cache:
            return False
        if k in frame.chain:
            return False
        if frame.depth >= self.maxdepth and callee.kind != "ext":
            return False
        if frame.depth >= self.maxdepth + 6:
            return False
        if self.opaque(callee.norm):
            return False
        if k in self.p.derived:
            m = k.split("::")[-1]
            if m in ("eq", "ne", "clone", "fmt", "hash", "cmp", "partial_cmp", "assert_fields_are_eq", "serialize", "deserialize"):
                return False
        if IDENT.search(name):
            # user defined conversions are analysed, library ones are identity
            return callee.kind != "ext" and not k.endswith("::clone")
        if callee.kind == "ext" and not self.inline_ext:
            return False
        if callee.kind not in ("fn", "ext", "closure"):
            return False
        return True

    p_opaque_cache = frozenset()

    def subst_for(self, callee, frame, f, targs, resolved_args):
        m = {}
        if resolved_args is not None:
            ra = [self.sub(frame, a) for a in resolved_args]
            gens = callee.gens
            if len(ra) <= len(gens):
                # type arguments in order, Self only for default methods
                for g, a in zip(gens if len(gens) == len(ra) else [x for x in gens], ra):
                    m[g] = a
        else:
            for g, a in zip(callee.gens, targs):
                m[g] = a
        return m

    def inline(self, n, st, outs, pre, callee, args, dest, target, f, targs):
        frame = n.frame
        sub = self.subst_for(callee, frame, f, targs, f.get("ra") if "r" in f else None)
        cf = self.mkframe(callee, frame, n.bb, dest, target, sub)
        s2 = State(dict(st.env), dict(st.facts))
        for i, a in enumerate(args):
            s2.env[(cf.id, i + 1)] = a
        self.g.inlined.add(callee.norm)
        self.goto(outs, pre, cf, 0, None, s2)

    def inline_closure(self, n, st, outs, pre, fv, cargs, dest, target, selfarg=None):
        frame = n.frame
        b = self.p.body(fv.a[1])
        if b is None or b.key in frame.chain or target is None:
            v = T("call", "closure:" + fv.a[1], tuple(self.snap(st, a) for a in cargs), self.site(frame, n.bb))
            return self.finish(n, st, outs, pre, dest, target, v)
        cf = self.mkframe(b, frame, n.bb, dest, target, frame.subst, "call", fv.a[1])
        s2 = State(dict(st.env), dict(st.facts))
        s2.env[(cf.id, 1)] = fv
        for i, a in enumerate(cargs):
            s2.env[(cf.id, i + 2)] = a
        self.g.inlined.add(b.norm)
        self.goto(outs, pre, cf, 0, None, s2)

    def apply_fn(self, n, st, outs, pre, fv, cargs, dest, target, line, rty):
        key, name = fv.a[0], strip_gen(fv.a[1])
        c = self.p.ctor.get(strip_gen(key))
        if c is not None and len(c[2]) == len(cargs):
            return self.finish(n, st, outs, pre, dest, target, T("agg", c[0], c[1], c[2], tuple(cargs)))
        b = self.p.body(key)
        if b is not None and target is not None and self.may_inline(n.frame, b, name):
            return self.inline(n, st, outs, pre, b, cargs, dest, target, {"fn": fv.a[1], "a": list(fv.a[2])}, fv.a[2])
        return self.opaque_call(n, st, outs, pre, name, key, cargs, dest, target, line, fv.a[2], rty, ())

    def finish(self, n, st, outs, ev, dest, target, v):
        if target is None:
            return self.end(outs, ev, n.frame)
        s2 = State(dict(st.env), dict(st.facts))
        evs = []
        self.assign(s2, n.frame, dest, v, evs, 0)
        if evs:
            ev = self.merge_ev(ev, Event("stores", args=tuple(evs), fn=n.frame.body.norm, file=n.frame.body.file, line=0))
        self.goto(outs, ev, n.frame, target, None, s2)

    def opaque_call(self, n, st, outs, pre, name, key, args, dest, target, line, targs, rty, atys):
        frame = n.frame
        body = frame.body
        snapped = tuple(self.snap(st, a) for a in args)
        # identity-like library functions
        if len(args) >= 1 and (IDENT.search(name) or (TOSTRING.search(name) and targs and targs[0] in ("str", "alloc::string::String", "&str"))) and not (name.endswith("::iter") and len(args) != 1):
            v = args[0]
            if "into_vec_unsafe" in name:
                root = v
                while root.op in ("fld", "cast"):
                    root = root.a[1] if root.op == "cast" else root.a[0]
                v = self.boxinit.get(root, v)
            ev = Event("id", name, snapped, snapped[0], body.norm, body.file, line, targs, key, rty, atys, frame.id)
            return self.finish(n, st, outs, self.merge_ev(pre, ev), dest, target, v)
        if name.endswith("::Iterator::next") and len(args) == 1 and target is not None and args[0].op == "ref":
            r = self.unroll(st, args[0].a[0])
            if r is not None:
                s2 = State(dict(st.env), dict(st.facts))
                v, nxt = r
                if nxt is not None:
                    self.write_loc(s2, args[0].a[0], nxt)
                ev = Event("id", name, snapped, v, body.norm, body.file, line, targs, key, rty, atys, frame.id)
                return self.finish(n, s2, outs, self.merge_ev(pre, ev), dest, target, v)
        site = self.site(frame, n.bb)
        pure = PURE.search(name) is not None or (name.startswith("core::num::") and "::<impl " in name)
        has_mut = any(self.refs_in(a) for a in args)
        if pure and not has_mut:
            res = T("pure", self.canon(name), snapped + ((T("ty", rty),) if name.endswith(("try_from", "try_into", "collect", "from_le_bytes", "from_be_bytes")) else ()))
            if name.endswith("::Index::index") and len(snapped) == 2:
                res = self.index(snapped[0], snapped[1])
        else:
            res = T("call", name, snapped, site)
        if name == "core::slice::<impl [T]>::len" or (name.endswith("::len") and len(snapped) == 1):
            res = T("pure", "len", (snapped[0],)) if snapped[0].op not in ("agg", "bytes") or True else res
        ev = Event("call", name, snapped, res, body.norm, body.file, line, targs, key, rty, atys, frame.id)
        s2 = State(dict(st.env), dict(st.facts))
        if res.op == "call":
            self.kill(s2, res)
        if name == "core::default::Default::default":
            d = self.default_of(rty)
            if d is not None:
                res = d
        # callbacks
        cbs = []
        for i, a in enumerate(args):
            x = self.deref_val(st, a)
            if x.op == "agg" and x.a[0] == "closure":
                b = self.p.body(x.a[1])
                if b is not None and b.key not in frame.chain and frame.depth < self.maxdepth:
                    cbs.append((i, x, b))
            elif x.op == "fn":
                b = self.p.fns.get(x.a[0])
                if b is not None and self.may_inline(frame, b, strip_gen(x.a[1])):
                    cbs.append((i, x, b))
        # havoc what is mutably reachable (not through analysed closures)
        cbidx = {c[0] for c in cbs}
        for i, a in enumerate(args):
            if i in cbidx:
                continue
            for loc in self.refs_in(a):
                self.write_loc(s2, loc, T("out", res, i))
        if not cbs:
            if target is None:
                return self.end(outs, self.merge_ev(pre, ev), frame)
            return self.finish(n, s2, outs, self.merge_ev(pre, ev), dest, target, res)
        if target is None:
            return self.end(outs, self.merge_ev(pre, ev), frame)
        mode = "once" if (ONCE.search(name) or (self.once and self.once(name))) else "star"
        if mode == "once":
            i, x, b = cbs[0]
            key2 = (frame.id, res, "forward" if name.endswith("scoped::scope") else "once", res)
            self.enter_cb(outs, self.merge_ev(pre, ev), frame, n.bb, dest, target, s2, x, b, name, snapped, key2, i)
            return
        # star: go to the callback head
        self.cbinfo[(frame.id, n.bb, res)] = (cbs, name, snapped, res, dest, target, mode)
        self.goto_cb(outs, self.merge_ev(pre, ev), frame, n.bb, s2, res)

    # ---- loops over literal arrays and constant ranges run element by element
    def finite(self, st, v, d=0):
        """the elements an iterator value yields, when they are spelled out in the source"""
        if d > 4 or v.op not in ("agg", "call", "pure"):
            return None
        if v.op == "agg":
            if v.a[0] == "arr":
                return list(v.a[3]) if 0 < len(v.a[3]) <= 16 else None
            if v.a[0] == "core::ops::range::Range" and all(x.op == "int" for x in v.a[3]):
                lo, hi = v.a[3][0], v.a[3][1]
                if 0 < hi.a[0] - lo.a[0] <= 16:
                    return [T("int", i, lo.a[1]) for i in range(lo.a[0], hi.a[0])]
            return None
        last = v.a[0].split("::")[-1]
        if last in ("enumerate", "rev", "zip", "copied", "cloned", "chain") and "iter" in v.a[0].lower():
            xs = self.finite(st, v.a[1][0], d + 1)
            if xs is None:
                return None
            if last == "enumerate":
                return [T("agg", "tup", "", ("0", "1"), (T("int", i, "usize"), x)) for i, x in enumerate(xs)]
            if last == "rev":
                return xs[::-1]
            if last in ("copied", "cloned"):
                return xs
            ys = self.finite(st, v.a[1][1], d + 1)
            if ys is None:
                return None
            if last == "chain":
                return xs + ys
            return [T("agg", "tup", "", ("0", "1"), p) for p in zip(xs, ys)]
        return None

    def unroll(self, st, loc):
        v = self.read_loc(st, loc)
        k = 0
        if v.op == "arriter":
            v, k = v.a
        xs = self.finite(st, v)
        if xs is None:
            return None
        opt = "core::option::Option"
        if k >= len(xs):
            return T("agg", opt, "None", (), ()), T("arriter", v, k)
        return T("agg", opt, "Some", ("0",), (xs[k],)), T("arriter", v, k + 1)

    def default_of(self, ty):
        if ty in self.NARROW:
            return T("int", 0, ty)
        if ty == "bool":
            return T("int", 0, "bool")
        if ty in ("f32", "f64"):
            return T("int", 0, ty)
        if ty.startswith("(") and ty.endswith(")"):
            ds = [self.default_of(x) for x in split_top(ty[1:-1]) if x.strip()]
            if ds and None not in ds:
                return T("agg", "tup", "", tuple(str(i) for i in range(len(ds))), tuple(ds))
        if ty == "alloc::string::String":
            return T("str", "")
        if ty.startswith("core::option::Option<"):
            return T("agg", "core::option::Option", "None", (), ())
        if ty.startswith("alloc::vec::Vec<"):
            return T("call", "alloc::vec::Vec::new", (), -1)
        return None

    cbinfo = {}

    def goto_cb(self, outs, ev, frame, bb, st, res):
        self.goto(outs, ev, frame, bb, ("cb", res), st)

    def enter_cb(self, outs, ev, frame, bb, dest, target, st, x, b, name, snapped, key, argi):
        cf = self.mkframe(b, frame, bb, dest, target, frame.subst, "cb", key)
        s2 = State(dict(st.env), dict(st.facts))
        base = 1
        if x.op == "agg":
            s2.env[(cf.id, 1)] = x
            base = 2
        nargs = b.argc - (base - 1)
        recv = snapped[0] if argi != 0 else (snapped[1] if len(snapped) > 1 else T("unk", "recv"))
        for i in range(nargs):
            ty = b.locals[base + i][0]
            if CB_ELEM.search(name):
                v = T("elem", recv) if nargs == 1 else T("elem", recv, i)
            elif CB_FOLD.search(name):
                v = T("elem", recv) if i == nargs - 1 else T("cbarg", name, key[1], i)
            else:
                v = T("cbarg", name, key[1], i)
            s2.env[(cf.id, base + i)] = v
        self.g.inlined.add(b.norm)
        self.goto(outs, ev, cf, 0, None, s2)

    def exec_cb(self, n, st, outs):
        frame = n.frame
        cbs, name, snapped, res, dest, target, mode = self.cbinfo[(frame.id, n.bb, n.sub[1])]
        key = (frame.id, res, "star", res)
        for i, x, b in cbs:
            # re-read the closure operand: captured references are by location, values unchanged
            self.enter_cb(outs, Event("cbin", name, snapped, res, frame.body.norm, frame.body.file, 0), frame, n.bb, dest, target, st, x, b, name, snapped, key, i)
        s2 = State(dict(st.env), dict(st.facts))
        self.kill(s2, res)
        self.finish(n, s2, outs, Event("cbend", name, snapped, res, frame.body.norm, frame.body.file, 0), dest, target, res)

    def canon(self, name):
        if name.endswith("::PartialEq::ne"):
            return "ne"
        if name.endswith("::PartialEq::eq"):
            return "eq"
        return name

    _contains = {}

    def contains(self, t, x):
        k = (t.id, x.id)
        c = self._contains.get(k)
        if c is not None:
            return c
        if t is x:
            r = True
        else:
            r = any(self.contains(s, x) for s in subterms(t))
        self._contains[k] = r
        return r

    def kill(self, st, res):
        dead = [t for t in st.facts if t is res or self.contains(t, res)]
        for t in dead:
            del st.facts[t]


def evaluate(prog, root, **kw):
    e = Eval(prog, **kw)
    e.cbinfo = {}
    return e.run(root)
