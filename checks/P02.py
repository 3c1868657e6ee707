"""P3D models."""
from rules import *
from wire import *
from lin import *
from coll import *
from logic import at, atom, Concrete

META = dict(
    title="P3D models are read and written in the exact layout and round-trip",
    statement="A model is written as MLOD with its version and the number of its LODs; each LOD as P3DM with its versions, the numbers of its points, normals and faces, these items with every component in its place, the named sections in order with their lengths, the end section and the resolution. Reading consumes the same layout, as many items as the counts say, and returns every value in the field it was written from, sections of the same name included. Another signature or a face with other than 3 or 4 vertices is an error, the number of items never makes the reader reserve memory before they are there, and an error while writing is reported.",
    over=["inputs", "environment"],
    forall="all models, all byte sequences offered to the reader",
    why="the tests read two fixtures and compare the names of four textures; nothing is ever written, and two components of the same width can be swapped unnoticed",
    files=["libs/p3d/src/lib.rs", "libs/p3d/src/lod.rs", "libs/p3d/src/face.rs", "libs/p3d/src/point.rs", "libs/p3d/src/vertex.rs"],
    mech=[("P3D::read/write", "libs/p3d/src/lib.rs"), ("LOD::read/write", "libs/p3d/src/lod.rs"), ("Face::read/write", "libs/p3d/src/face.rs")],
    technique="automata-based wire-format analysis over inlined MIR (language equality of emitted and consumed fields, read-to-field provenance, loop bounds)",
    note="The byte flag before every section is written as 1 and skipped when read.",
)

K = "hemtt_p3d::"
MADE = re.compile(r"::(push|extend|collect|new|with_capacity|from_elem|default|into_boxed_slice|into|from|shrink_to_fit)$")
SUB = re.compile(r"hemtt_p3d::(?:\w+::)?(LOD|Face|Point|Vertex)::(read|write)$")
OPQ = lambda k: SUB.search(k) is not None or k.endswith("ReadExt>::read_cstring")


def sources(q, t):
    """read calls, those of parts included, a value comes from"""
    out, seen, st = set(), set(), [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == "call" and (is_read_term(x) or SUB.search(x.a[0])):
            out.add(x)
            continue
        if x.op == "out" and x.a[0].op == "call":
            call, i = x.a
            if is_read_term(call) or SUB.search(call.a[0]):
                if i >= 1:
                    out.add(call)
                continue
            if NEXT.search(call.a[0]):
                st.append(call.a[1][i])
                continue
            st.extend(call.a[1])
            continue
        if x.op == "phi":
            st.extend(q.g.phi.get(x, ()))
            continue
        if x.op == "agg" and re.search(r"::Range\w*$", x.a[0]):
            continue
        if x.op in ("call", "pure"):
            if re.search(r"::(with_capacity|reserve|reserve_exact)$", x.a[0]):
                st.extend(x.a[1][:1] if x.a[0].endswith(("reserve", "exact")) else ())
                continue
            st.extend(q.g.cbret.get(x, ()))
        st.extend(subterms(x))
    return out


def buffer(S, t, g):
    """the buffer itself, behind boxes and casts"""
    for _ in range(20):
        t = obj(S.follow(t), g)
        if t.op == "cast":
            t = t.a[1]
        elif t.op in ("call", "pure") and re.search(r"::(into_boxed_slice|into_vec|into|from|as_mut_slice|as_slice|deref|deref_mut|as_mut|as_ref|to_vec|clone)$", t.a[0]) and t.a[1]:
            t = t.a[1][0]
        else:
            break
    return t


def between(q, start, stop):
    """events after start and before stop"""
    out, seen, st = [], set(), []

    def run(evs, on):
        for e in evs:
            if on and stop(e):
                on = False
            elif on:
                out.append(e)
            if not on and start(e):
                on = True
        return on
    for n, evs, m in q.edges:
        if any(start(e) for e in evs) and run(evs, False):
            st.append(m)
    by = {}
    for n, evs, m in q.edges:
        by.setdefault(n, []).append((evs, m))
    while st:
        n = st.pop()
        if n in seen:
            continue
        seen.add(n)
        for evs, m in by.get(n, ()):
            if run(evs, True):
                st.append(m)
    return out


def counted(v, filler):
    """the vertices of a face and the filler of a triangle, as far as the number of vertices is
    followed through the loop; which of them happens at which number is decided apart"""
    some = seq(v, star(v))
    return [seq(star(v), opt(filler)), seq(some, opt(filler)), alt(seq(some, filler), star(v)), alt(seq(star(v), filler), some), seq(v, v, v, alt(v, filler))]


def fitting(q, lab, specs):
    if not isinstance(specs, list):
        return specs
    d = q.nfa(expanded(lab), lambda e: not is_err(e.res)).dfa()
    return next((x for x in specs if compare(d, regex(spelled(x))) is None), specs[0])


def reader(ctx, key, fn, spec, lists):
    p = ctx.p
    f = p.find(K + fn)
    q = ctx.query(f, opaque=lambda k: OPQ(k) and k != f.norm)
    S = Sizes(q)
    rets = [e for e in q.rets() if not is_err(e.res)]
    fm = {}
    for e in rets:
        r = e.res.a[3][0] if e.res.op == "agg" and e.res.a[3] else e.res
        for path, v in leaf_fields(r):
            for x in sources(q, v):
                fm.setdefault(x, set()).add(path)
        for path, v in leaf_fields(r):
            w = raw(S, v)
            ctx.expect(f"{key}.value.{path}", w.op not in ("bin", "un") and not (w.op in ("call", "pure") and not is_read_term(w) and not SUB.search(w.a[0]) and not MADE.search(w.a[0])), "a value is returned as it was read", where=e.where(), detail=q.c(v)[:200])
    kept = {}
    # what is put in a list, part by part
    for e in q.events():
        if e.kind == "call" and re.search(r"::(push|insert|extend)$", e.name):
            vs = [S.follow(v) for v in e.args[1:]]
            if len(vs) == 2:
                vs = [T("agg", "tuple", "", (), tuple(vs))]
            for v in vs:
                if v.op == "agg" and v.a[3]:
                    for path, w in leaf_fields(v):
                        if any(x in fm for x in sources(q, w)):
                            base = {y.split(".")[0] for x in sources(q, w) for y in fm.get(x, ())}
                            kept[buffer(S, w, q.g)] = "/".join(sorted(y + "." + path for y in base))
                        for x in sources(q, w):
                            if x in fm:
                                fm[x] = {y + "." + path for y in fm[x] if "." + path not in y}
    # what a count is the count of
    count = {}
    for k, head, el, ev in loop_heads(q):
        if not ev.args:
            continue
        rng = [x for x in origin(q, ev.args[0]) if x.op == "agg" and x.a[0] and "Range" in x.a[0]]
        for r in rng:
            fs = dict(zip(r.a[2], r.a[3]))
            lo, hi = fs.get("start"), fs.get("end")
            n = [x for x in sources(q, hi)] if hi is not None else []
            if len(n) == 1:
                incl = "Inclusive" in r.a[0]
                direct = raw(S, hi) is n[0]
                body = between(q, body_of(q, k, head), head)
                fld = sorted({x.split(".")[0] for e in body if e.kind == "call" and e.res in fm for x in fm[e.res]})
                count[n[0]] = "/".join(fld) if direct and not incl and lo is not None and lo.op == "int" and lo.a[0] == 0 else "?"
                gone = lambda x: head(x) or (x.kind == "br" and x.args[0].op == "call" and k[0] == "n" and x.args[0].a[2] == k[1] and x.args[1] == "None")
                tr = q.path_avoiding(gone, lambda e: e.kind == "ret" and not is_err(e.res), start=body_of(q, k, head)) if k[0] == "n" else None
                ctx.expect(f"{key}.every.{count[n[0]]}", tr is None, "all items are read", tr or (), f.norm)
    for e in q.events():
        # loops that count themselves
        if e.kind == "br" and e.raw == "bool" and e.args[1] is True and e.args[0].op == "bin" and e.args[0].a[0] in ("Lt", "Ne", "Gt"):
            op, i, hi = e.args[0].a
            if op == "Gt":
                i, hi = hi, i
            n = raw(S, hi)
            if i.op != "phi" or n not in fm and not is_read_term(n):
                continue
            vs = [v for v in S.edges(i).values() if v is not i]
            zero = [v for v in vs if v.op == "int" and v.a[0] == 0]
            more = [v for v in vs if v.op == "bin" and v.a[0].startswith("Add") and v.a[1] is i and v.a[2].op == "int" and v.a[2].a[0] == 1]
            body = between(q, lambda x, e=e: x.kind == "br" and x.args[0] is e.args[0] and x.args[1] is True, lambda x, e=e: x.kind == "br" and x.args[0] is e.args[0])
            fld = sorted({x.split(".")[0] for x in body if x.kind == "call" and x.res in fm for x in fm[x.res]})
            count[n] = "/".join(fld) if zero and more and len(zero) + len(more) == len(vs) else "?"
            tr = q.path_avoiding(lambda x, e=e: x.kind == "br" and x.args[0] is e.args[0], lambda x: x.kind == "ret" and not is_err(x.res), start=lambda x, e=e: x is e)
            ctx.expect(f"{key}.every.{count[n]}", tr is None, "all items are read", tr or (), f.norm)
    for e in q.events():
        # every part that is read goes where it belongs
        if e.kind == "call" and SUB.search(e.name) and e.res in fm:
            got = lambda x, e=e: x.kind == "call" and re.search(r"::(push|insert|extend)$", x.name) is not None and any(e.res in walk(y) for y in x.args[1:]) or x.kind == "br" and x.args[0] is e.res and x.args[1] == "Err"
            ends = lambda x, e=e: x is not e and x.kind == "call" and x.res is not None and x.res.op == "call" and x.res.a[2] == e.res.a[2] or x.kind == "call" and SUB.search(x.name) is not None and x.name != e.name or x.kind == "ret" and not is_err(x.res)
            if any(got(x) and x.kind == "call" for x in q.events()):
                tr = q.path_avoiding(got, ends, start=lambda x, e=e: x is e)
                ctx.expect(key + ".kept", tr is None, "every part that is read is kept", tr or (), e.where())
    for e in q.events():
        if e.kind == "call" and re.search(r"::(insert|extend_from_slice|truncate|pop|remove|swap_remove|clear|retain\w*|dedup\w*|reverse|swap|sort\w*)$", e.name) and e.args and q.c(e.args[0]).startswith(("list[", "mut(list")):
            ctx.expect(key + ".order", False, "the parts stay in the order they are read", where=e.where())
    WD = {"u8": 1, "u16": 2, "u32": 4, "u64": 8, "f32": 4}

    def lab(e):
        if e.kind != "call":
            return None
        m = SUB.search(e.name)
        flds = "/".join(sorted(fm.get(e.res, ()))) or count.get(e.res) and "n:" + count[e.res]
        if m:
            return f"{m.group(1)}:{flds}" if flds else f"{m.group(1)}:-"
        if re.search(r"Iterator::(nth|next)$", e.name) and q.c(e.args[0]).startswith("bytes("):
            return "skip" + str(1 if e.name.endswith("next") else e.args[1].a[0] + 1)
        k = read_kind(e)
        if k is None:
            return None
        if k in ("exact", "partial"):
            b = buffer(S, e.args[1], q.g)
            if not flds and b in kept:
                flds = kept[b]
            if not flds:
                if b.op == "rep":
                    return "skip" + str(b.a[1])
            return f"{k}:{flds or '-'}"
        if k == "seek":
            return "seek:" + q.c(e.args[1])
        if not flds and k.rstrip("lebe") in WD:
            return f"skip{WD[k.rstrip('lebe')]}"
        return f"{k}:{flds or '-'}"

    check_language(ctx, key, q, lab, fitting(q, lab, spec), "layout consumed, value by value")
    for x in lists:
        ctx.expect(f"{key}.list.{x}", any(x in v.split("/") for v in count.values()), f"as many {x} as counted", where=f.norm, detail=str(sorted(count.values())))
    return q, f, fm


def origin(q, t):
    """what an iterator was made from"""
    out, st, seen = [], [t], set()
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        out.append(x)
        if x.op == "phi":
            st.extend(q.g.phi.get(x, ()))
        elif x.op == "out":
            st.append(x.a[0].a[1][x.a[1]])
        elif x.op in ("call", "pure") and x.a[1]:
            st.append(x.a[1][0])
    return out


WIDTH = {"usize": 64, "isize": 64}


def bits(ty):
    m = re.fullmatch(r"[iuf](\d+)", ty)
    return int(m.group(1)) if m else WIDTH.get(ty, 0)


def raw(S, t):
    """the call behind widening casts and ?"""
    for _ in range(10):
        t = S.follow(t)
        if t.op == "cast":
            if bits(t.a[3]) < bits(t.a[2]):
                return t
            t = t.a[1]
        elif t.op == "fld":
            t = t.a[0]
        else:
            return t
    return t


def walk(t, d=0):
    out, st, seen = [], [t], set()
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        out.append(x)
        st.extend(subterms(x))
    return out


def magic(ctx, q, f, key, lit):
    """success needs the bytes read to equal the signature"""
    n = len(lit)
    ok = lambda e: e.kind == "br" and atom(q, e)[1] is True and re.fullmatch(rf'eq\((?:.*read_exact!1.*, b"{lit}"|b"{lit}", .*read_exact!1.*)\)', atom(q, e)[0]) is not None
    tr = q.path_avoiding(ok, lambda e: e.kind == "ret" and not is_err(e.res))
    ctx.expect(key, tr is None and any(ok(e) for e in q.events()), f"data without the signature {lit} is an error", tr or (), f.norm)


def run(ctx):
    ctx.load(["hemtt_p3d", "hemtt_common"])
    ctx.rule("language of the values written = the layout; language of the reads = the layout, every value flowing into its own field and every loop running exactly as often as counted")

    def rep(*a):
        return star(*a)
    good = lambda e: e.kind == "ret" and not is_err(e.res)

    # ---- writers
    def writer(key, fn, spec, each=()):
        f = ctx.p.find(K + fn)
        q = ctx.query(f, opaque=lambda k: OPQ(k) and k != f.norm)
        S = Sizes(q)
        bad = []

        def lab(e):
            if e.kind != "call":
                return None
            m = SUB.search(e.name)
            if m:
                return f"{m.group(1)}:{q.c(e.args[0])}"
            return write_label(q, e)
        check_language(ctx, key, q, lab, fitting(q, lab, spec), "layout written")
        for what, rx in each:
            ok, why = every_iteration(q, lambda e: e.kind == "call" and (SUB.search(e.name) is not None or lab(e) is not None) and re.search(rx, lab(e) or "") is not None, lambda el: re.search(rx, el) is not None)
            ctx.expect(f"{key}.{what}", bool(ok), f"all {what} are written", where=f.norm, detail=str(why)[:300])
        return q, f

    F3 = lambda x: [f"f32le:{x}.{i}" for i in range(3)]
    U = "u32le:"
    q, f = writer("model.write", "P3D::write", seq("b'MLOD'", U + "arg1.version", U + "len(arg1.lods)", rep("LOD:arg1.lods[*]")), [("lods", r"arg1\.lods\[\*\]")])
    wr = lambda e: e.kind == "call" and (SUB.search(e.name) is not None or write_label(q, e) is not None)
    buf = any(e.kind == "call" and re.search(r"(BufWriter|LineWriter)::", e.name) for e in q.events())
    fl = lambda e: e.kind == "call" and re.search(r"Write::flush$|::into_inner$", e.name) is not None
    tr = q.path_avoiding(fl, good, start=wr) if buf else None
    ctx.expect("model.flush", tr is None, "what is buffered is flushed before success is reported", tr or (), f.norm)
    for qq, ff in ((q, f),):
        ignored(ctx, qq, ff)
    q, f = writer("lod.write", "lod::LOD::write", seq(
        "b'P3DM'", U + "arg1.version_major", U + "arg1.version_minor", U + "len(arg1.points)", U + "len(arg1.face_normals)", U + "len(arg1.faces)", "b'\\x00\\x00\\x00\\x00'",
        rep("Point:arg1.points[*]"), rep(*F3("arg1.face_normals[*]")), rep("Face:arg1.faces[*]"),
        "b'TAGG'", rep("b'\\x01'", "bytes:arg1.taggs[*].0", "b'\\x00'", U + "len(arg1.taggs[*].1)", "bytes:arg1.taggs[*].1"),
        "b'\\x01#EndOfFile#'", "b'\\x00'", U + "0", "f32le:arg1.resolution"),
        [("points", r"arg1\.points\[\*\]"), ("normals", r"arg1\.face_normals\[\*\]"), ("faces", r"arg1\.faces\[\*\]"), ("sections", r"arg1\.taggs\[\*\]")])
    ignored(ctx, q, f)
    q, f = writer("face.write", "face::Face::write", [seq(U + "len(arg1.vertices)", v, U + "arg1.flags", "bytes:arg1.texture", "b'\\x00'", "bytes:arg1.material", "b'\\x00'") for v in counted("Vertex:arg1.vertices[*]", "Vertex:Vertex(point_index:0, normal_index:0, uv:(0, 0))")], [("vertices", r"arg1\.vertices\[\*\]")])
    ignored(ctx, q, f)
    vertices(ctx, q, f, "face.write", r"len\(arg1\.vertices\)", lambda e: e.kind == "call" and SUB.search(e.name) is not None and "point_index:0" in q.c(e.args[0]))
    q, f = writer("point.write", "point::Point::write", seq(*F3("arg1.coords"), U + "arg1.flags"))
    ignored(ctx, q, f)
    q, f = writer("vertex.write", "vertex::Vertex::write", seq(U + "arg1.point_index", U + "arg1.normal_index", "f32le:arg1.uv.0", "f32le:arg1.uv.1"))
    ignored(ctx, q, f)

    # ---- readers
    q, f, fm = reader(ctx, "model.read", "P3D::read", seq("skip4", U + "version", U + "n:lods", rep("LOD:lods")), ["lods"])
    magic(ctx, q, f, "model.magic", "MLOD")
    ignored(ctx, q, f)
    q, f, fm = reader(ctx, "lod.read", "lod::LOD::read", seq(
        "skip4", U + "version_major", U + "version_minor", U + "n:points", U + "n:face_normals", U + "n:faces", "skip4",
        rep("Point:points"), rep(*[f"f32le:face_normals.{i}" for i in range(3)]), rep("Face:faces"),
        "skip4", rep("skip1", "cstr:taggs.0", U + "taggs.1", "exact:taggs.1"), "skip1", "cstr:taggs.0", U + "taggs.1", "exact:taggs.1", "f32le:resolution"),
        ["points", "face_normals", "faces"])
    magic(ctx, q, f, "lod.magic", "P3DM")
    magic(ctx, q, f, "tagg.magic", "TAGG")
    ignored(ctx, q, f)
    sections(ctx, q, f)
    q, f, fm = reader(ctx, "face.read", "face::Face::read", [seq(U + "n:vertices", v, U + "flags", "cstr:texture", "cstr:material") for v in counted("Vertex:vertices", "Vertex:-")], ["vertices"])
    ignored(ctx, q, f)
    vertices(ctx, q, f, "face.read", r"read_u32\(arg1\)\?", lambda e: e.kind == "call" and SUB.search(e.name) is not None and e.res not in fm)
    q, f, fm = reader(ctx, "point.read", "point::Point::read", seq(*[f"f32le:coords.{i}" for i in range(3)], U + "flags"), [])
    q, f, fm = reader(ctx, "vertex.read", "vertex::Vertex::read", seq(U + "point_index", U + "normal_index", "f32le:uv.0", "f32le:uv.1"), [])

    # ---- memory
    ctx.rule("no memory is reserved for a number of items that was read and not checked")
    for b in ctx.p.fns.values():
        if not b.norm.startswith(K) or not b.norm.endswith("::read"):
            continue
        q = ctx.query(b, opaque=lambda k, b=b: OPQ(k) and k != b.norm)
        for e in q.events():
            if e.kind == "call" and re.search(r"::(with_capacity|reserve|reserve_exact)$", e.name):
                src = sources(q, e.args[-1])
                if not src:
                    continue
                tr = None
                for x in src:
                    if not RD.search(x.a[0]):
                        continue
                    s = q.c(x)
                    big = at(q, {re.escape(s) + r"\?": (1 << 32) - 1})
                    hit = lambda y, e=e: y.kind == "call" and y.name == e.name and y.line == e.line
                    if big.path_avoiding(lambda y: False, hit) is not None:
                        ev = next(y for y in big.events() if hit(y))
                        if (Concrete(big, {re.escape(s) + r"\?": (1 << 32) - 1}).val(ev.args[-1]) or 1 << 40) > 1 << 24:
                            tr = big.path_avoiding(lambda y: False, hit)
                ctx.expect("reserve", tr is None, "memory is reserved for a count read from the file", tr or (), e.where())
    ctx.expect("reserve.seen", True, "", where=K)


def ignored(ctx, q, f):
    """the result of every read and write is looked at"""

    def deep(t):
        out, st = set(), [t]
        while st:
            x = st.pop()
            if x in out:
                continue
            out.add(x)
            st.extend(subterms(x))
            st.extend(q.g.cbret.get(x, ()))
            st.extend(q.g.phi.get(x, ()) if x.op == "phi" else ())
        return out
    for e in q.events():
        if e.kind != "call" or e.res is None or e.res.op != "call":
            continue
        m = SUB.search(e.name)
        if m or read_kind(e) in ("exact", "partial", "cstr") or (read_kind(e) or "").startswith(("u", "f")) or write_label(q, e) is not None or e.name.endswith("Write::flush"):
            looked = lambda x, e=e: x.kind == "br" and (x.args[0] is e.res or x.args[0] in q.g.cbret and e.res in deep(x.args[0])) or x.kind == "ret" and e.res in deep(x.res) or x.kind == "br" and x.args[0].op in ("call", "pure") and x.args[0].a[0].endswith("collect") and e.res in deep(x.args[0])
            tr = q.path_avoiding(looked, lambda x: x.kind == "ret" and not is_err(x.res), start=lambda x, e=e: x is e)
            ctx.expect("result", tr is None, "an error is handed on", tr or (), e.where())


def vertices(ctx, q, f, key, N, filler):
    """3 or 4 vertices, and a filler after 3; judged by what happens at each count"""
    good = lambda e: e.kind == "ret" and not is_err(e.res)
    for n in (0, 1, 2, 3, 4, 5, 6, 8, 255, 259, 65535, 65539, (1 << 31) + 3, (1 << 32) - 1):
        qn = at(q, {N: n})
        tr = qn.path_avoiding(lambda e: False, good)
        if n not in (3, 4):
            ctx.expect(key + ".count", tr is None, f"a face of {n} vertices is an error", tr or (), f.norm)
            continue
        ctx.expect(key + f".takes{n}", tr is not None, f"a face of {n} vertices is accepted", where=f.norm)
        if n == 3:
            tr = qn.path_avoiding(filler, good)
            ctx.expect(key + ".filler", tr is None, "the fourth vertex of a triangle is filled in", tr or (), f.norm)
            tr = qn.path_avoiding(lambda e: False, filler, start=filler)
            ctx.expect(key + ".filler1", tr is None, "a triangle has one filler", tr or (), f.norm)
        else:
            tr = qn.path_avoiding(lambda e: False, filler)
            ctx.expect(key + ".filler4", tr is None, "a face of four has no filler", tr or (), f.norm)


def sections(ctx, q, f):
    """the loop over sections: ends with the end section, and keeps every other one"""
    end = lambda v: lambda e: e.kind == "br" and re.fullmatch(r'eq\(read_cstring\(.*\)\?, "#EndOfFile#"\)', atom(q, e)[0]) is not None and atom(q, e)[1] is v
    cstr = lambda e: e.kind == "call" and read_kind(e) == "cstr"
    good = lambda e: e.kind == "ret" and not is_err(e.res)
    put = lambda e: e.kind == "call" and re.search(r"::(push|insert|insert_full|extend)$", e.name) is not None and len(e.args) > 1 and any(cstr_src(q, a) for a in e.args[1:])
    tr = q.path_avoiding(end(True), good)
    ctx.expect("sections.end", tr is None and any(end(True)(e) for e in q.events()), "sections are read up to the end section", tr or (), f.norm)
    tr = q.path_avoiding(lambda e: False, cstr, start=end(True))
    ctx.expect("sections.stop", tr is None, "nothing after the end section is read as a section", tr or (), f.norm)
    tr = q.path_avoiding(put, cstr, start=cstr)
    ctx.expect("sections.kept", tr is None, "every section is kept", tr or (), f.norm)
    for e in q.events(put):
        # a map by name would drop all but the last section of a name
        lossy = re.search(r"(HashMap|BTreeMap|IndexMap)", e.name) is not None
        ctx.expect("sections.names", not lossy, "sections that share a name are all kept", where=e.where(), detail=e.name)
    S = Sizes(q)
    for e in q.events():
        if e.kind == "call" and e.name.endswith("from_elem"):
            ctx.expect("sections.length", raw(S, e.args[1]).op == "call" and read_kind_of(raw(S, e.args[1])), "the data of a section is as long as stated", where=e.where(), detail=q.c(e.args[1])[:200])


def read_kind_of(t):
    return bool(RD.search(t.a[0])) and "u32" in t.a[0]


def cstr_src(q, t):
    return any(x.a[0].endswith("read_cstring") for x in sources(q, t))
