"""Byte-stream labels: what a writer emits / a reader consumes, field by field."""
import ast
import re
from engine import *
from lib import *

WR = re.compile(r"WriteBytesExt::write_([uif])(\d+)(_into|)$")
RD = re.compile(r"ReadBytesExt::read_([uif])(\d+)(_into|)$")


def endian(e):
    for a in e.targs:
        if "LittleEndian" in a or a.endswith("::LE"):
            return "le"
        if "BigEndian" in a or a.endswith("::BE"):
            return "be"
    return ""


def tobytes(q, t):
    """label for a byte sequence value"""
    if t.op == "bytes":
        return "b" + repr(t.a[0])
    if t.op == "str":
        return "b" + repr(t.a[0])
    if t.op == "agg" and t.a[0] == "arr":
        return "[" + ",".join(q.c(x) for x in t.a[3]) + "]"
    if t.op in ("pure", "call"):
        m = re.match(r"core::num::<impl (\w+)>::to_(le|be)_bytes$", t.a[0])
        if m:
            w = m.group(1)
            k = "f" if w.startswith("f") else ("i" if w.startswith("i") else "u")
            return f"{k}{re.sub(r'[^0-9]', '', w)}{m.group(2)}:{q.c(t.a[1][0])}"
        m = re.match(r"core::(?:num|f32|f64)::<impl (f\d+)>::to_(le|be)_bytes$", t.a[0])
        if m:
            return f"f{m.group(1)[1:]}{m.group(2)}:{q.c(t.a[1][0])}"
    c = q.c(t)
    return "b''" if c == '""' else "bytes:" + c


def write_label(q, e, target=None):
    """Label of a write event on an accepted target, else None."""
    if e.kind != "call":
        return None
    m = WR.search(e.name)
    if m:
        if target and not target(e.args[0]):
            return None
        k = m.group(1) + m.group(2)
        en = endian(e) if m.group(2) != "8" else ""
        return f"{k}{en}:{q.c(e.args[1])}"
    if re.search(r"Write::write_all$", e.name) or re.search(r"alloc::vec::Vec::extend_from_slice$", e.name):
        if target and not target(e.args[0]):
            return None
        return tobytes(q, e.args[1])
    if re.search(r"Write::write$", e.name):
        if target and not target(e.args[0]):
            return None
        return "partial-" + tobytes(q, e.args[1])
    return None


def read_kind(e):
    """Token kind of a read event, else None."""
    if e.kind != "call":
        return None
    m = RD.search(e.name)
    if m:
        return m.group(1) + m.group(2) + (endian(e) if m.group(2) != "8" else "")
    if e.name.endswith("::ReadExt::read_cstring"):
        return "cstr"
    if e.name.endswith("::ReadExt::read_compressed_int"):
        return "cint"
    if re.search(r"Read::read_exact$", e.name):
        return "exact"
    if re.search(r"Read::read_to_end$|Read::read_to_string$", e.name):
        return "rest"
    if re.search(r"Read::read$", e.name):
        return "partial"
    if re.search(r"Seek::seek$|Seek::rewind$|Seek::seek_relative$", e.name):
        return "seek"
    return None


def is_read_term(t):
    if t.op != "call":
        return False
    return bool(RD.search(t.a[0]) or re.search(r"(ReadExt::read_cstring|ReadExt::read_compressed_int|Read::read_exact|Read::read_to_end|Read::read)$", t.a[0]))


def read_sources(g, t, stop=None):
    """Read calls a value is computed from (not through the reader object itself)."""
    out = set()
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if is_read_term(x):
            out.add(x)
            if x.a[0].endswith(("read_exact", "read_to_end", "Read::read")):
                pass
            continue
        if x.op == "out" and x.a[0].op == "call":
            call, i = x.a
            if is_read_term(call):
                if i >= 1:
                    out.add(call)
                continue
            if NEXT.search(call.a[0]):
                st.append(call.a[1][i])
                continue
            st.extend(call.a[1])
            continue
        if x.op == "phi":
            st.extend(g.phi.get(x, ()))
            continue
        if x.op in ("call", "pure"):
            rs = g.cbret.get(x)
            if rs:
                st.extend(rs)
        st.extend(subterms(x))
    return out


def leaf_fields(t, prefix=""):
    """(path, term) leaves of a returned aggregate."""
    if t.op == "agg" and t.a[0] not in ("arr", "closure"):
        names = t.a[2] or [str(i) for i in range(len(t.a[3]))]
        r = []
        for n, v in zip(names, t.a[3]):
            r.extend(leaf_fields(v, prefix + "." + n if prefix else n))
        if not t.a[3]:
            r.append((prefix, t))
        return r
    return [(prefix, t)]


def field_of_reads(q, rets, pick=lambda t: t):
    """map: read call term -> set of returned field paths it flows into"""
    m = {}
    for e in rets:
        for path, v in leaf_fields(pick(e.res)):
            for r in read_sources(q.g, v):
                m.setdefault(r, set()).add(path)
    return m


def pp_word(w):
    return " ".join(w[-8:]) if w else "(empty)"


def spell(l):
    """the bytes of a label that is a constant, one by one: how they are grouped into writes is not
    part of a layout"""
    if not isinstance(l, str):
        return l
    if re.match(r"b['\"]", l):
        try:
            v = ast.literal_eval(l)
        except (SyntaxError, ValueError):
            return l
        return [f"x{x:02x}" for x in v] if isinstance(v, bytes) else l
    m = re.fullmatch(r"[ui](8|16|24|32|48|64)(le|be|):(-?\d+)", l)
    if m and (m.group(2) or m.group(1) == "8"):
        n = int(m.group(1)) // 8
        v = (int(m.group(3)) & ((1 << 8 * n) - 1)).to_bytes(n, "big" if m.group(2) == "be" else "little")
        return [f"x{x:02x}" for x in v]
    return l


def expanded(label):
    def lab(e):
        l = label(e)
        if isinstance(l, list):
            return [y for x in l for y in (lambda s: s if isinstance(s, list) else [s])(spell(x))]
        return spell(l)

    return lab


def spelled(spec):
    if isinstance(spec, str):
        l = spell(spec)
        return ("seq", *l) if isinstance(l, list) else l
    return (spec[0], *(spelled(x) for x in spec[1:]))


def squeezed(n):
    """an automaton without repetitions of a label"""
    trans = {}
    work = [(x, None) for x in n.start]
    seen = set(work)
    while work:
        x, last = work.pop()
        for l, m in n.trans.get(x, ()):
            y = (m, last if l is None else l)
            trans.setdefault((x, last), []).append((None if l == last else l, y))
            if y not in seen:
                seen.add(y)
                work.append(y)
    return NFA(trans, {(x, None) for x in n.start}, {y for y in seen if y[0] in n.final})


def check_language(ctx, key, q, label, spec, what, accept=None, squeeze=False):
    """L(function) == L(spec) over all paths that return success (squeeze: a label seen again at once counts once)."""
    label, spec = expanded(label), spelled(spec)
    accept = accept or (lambda e: not is_err(e.res))
    d = q.nfa(label, accept)
    if squeeze:
        d = squeezed(d)
    if d.empty():
        ctx.bad(key + ".empty", f"{what}: no successful path found", where=q.root.norm)
        return False
    r = compare(d.dfa(), regex(spec))
    if r is None:
        ctx.ok(key, what)
        return True
    w, infirst = r
    ctx.bad(
        key,
        f"{what}: " + (f"the code has a path with the sequence …{pp_word(w)} that the format does not allow" if infirst else f"the code never produces …{pp_word(w)}"),
        witness=["sequence: " + x for x in w],
        where=f"{q.root.norm} ({q.root.file}:{q.root.line})",
    )
    return False


def is_err(t):
    return t.op == "agg" and t.a[0] == "core::result::Result" and t.a[1] == "Err"


def table(ctx, root, **kw):
    """All (facts, result) pairs of a small total function, one per decision path."""
    q = ctx.query(root, split_facts=lambda t: True, **kw)
    out = []
    for e in q.rets():
        out.append((e.targs, e.res, e))
    return q, out


BUFCTOR = re.compile(r"(Cursor::new|Vec::new|Vec::with_capacity|String::new|Default::default|BytesMut::new)$")


def strip_view(t):
    """look through views of an in-memory buffer"""
    while True:
        if t.op in ("call", "pure") and re.search(r"::(get_ref|into_inner|get_mut|as_slice|as_ref|buffer|to_vec|clone|into_boxed_slice)$", t.a[0]) and t.a[1]:
            t = t.a[1][0]
        elif t.op == "cast" and len(t.a) > 3 and re.match(r"[*&].*\[", str(t.a[3])):
            t = t.a[1]
        else:
            return t


def membuf(q, t):
    """the constructor of the in-memory buffer a value is (a later state of), or None"""
    t = strip_view(t)
    o = strip_view(obj(t, q.g))
    if o.op == "call" and BUFCTOR.search(o.a[0]) and all(BUFCTOR.search(strip_view(obj(x, q.g)).a[0]) for x in o.a[1] if x.op == "call"):
        return o
    return None


HASH_UPD = re.compile(r"(digest::Digest::update|digest::Update::update|Digest::chain_update|Update::chain)$")
HASH_FIN = re.compile(r"(digest::Digest::finalize|digest::FixedOutput::finalize_fixed|Digest::finalize_reset)$")


def io_sink(q, e):
    """(kind, object, data term) of a byte-sink event: kind in W (write), H (hash)."""
    if e.kind != "call":
        return None
    if HASH_UPD.search(e.name):
        return "H", obj(e.args[0], q.g), e.args[1]
    if re.search(r"std::io::copy$|io::util::copy$|io::copy::copy$", e.name):
        return "C", obj(e.args[1], q.g), e.args[0]
    if re.search(r"Write::write_all$|Vec::extend_from_slice$|Extend::extend$", e.name):
        return "W", obj(e.args[0], q.g), e.args[1]
    if WR.search(e.name) or re.search(r"Write::(write|write_fmt|write_vectored)$", e.name):
        return "W", obj(e.args[0], q.g), e.args[1] if len(e.args) > 1 else e.args[0]
    return None


def buffered(q, t):
    """does this value involve a buffering writer that must be flushed?"""
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == "call" and re.search(r"(BufWriter|LineWriter)::(new|with_capacity)$", x.a[0]):
            return True
        if x.op == "out":
            st.append(x.a[0].a[1][x.a[1]] if x.a[0].op in ("call", "pure") else x.a[0])
        elif x.op in ("with", "upd", "fld"):
            st.append(x.a[0])
        elif x.op == "phi":
            st.extend(q.g.phi.get(x, ()))
    return False
