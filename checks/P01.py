"""PAA textures."""
from rules import *
from wire import *
from lin import *
from coll import *
from logic import at, atom, Concrete, settle
from P02 import buffer

META = dict(
    title="PAA textures are read and written in the exact layout",
    statement="An image is written as a DXT5 texture: its tags with their lengths, the table of 16 offsets whose first is where the image starts and whose others are zero, then width, height, the length and that many bytes of the image; an image that does not fit these fields is an error. Reading takes the format from its two bytes, every tag with all its bytes, and the mipmaps at exactly the non-zero offsets in their order, each with the width, height and bytes stored there; an unknown or undecodable format or an early end is an error. A mipmap counts as compressed exactly if the top bit of its width is set, and its image is decoded from all of its unpacked bytes with its own format and real size.",
    over=["inputs"],
    forall="all images offered to the writer, all byte sequences offered to the reader",
    why="the tests read two fixtures and look at the first mipmap's header; no texture is ever written and no decoded pixel is looked at",
    files=["libs/paa/src/paa.rs", "libs/paa/src/pax.rs", "libs/paa/src/mipmap.rs"],
    mech=[("Paa::read", "libs/paa/src/paa.rs"), ("Paa::write", "libs/paa/src/paa.rs"), ("MipMap::from_stream/get_image", "libs/paa/src/mipmap.rs"), ("PaXType", "libs/paa/src/pax.rs")],
    technique="automata-based wire-format analysis over inlined MIR, ghost counter for the offset written, decision tables of the format bytes, evaluation of the size arithmetic at the edges of its ranges",
    note="That texpresso codes and decodes the blocks correctly is its contract. The values of the colour tags are only traced to the pixels.",
)

K = "hemtt_paa::"
BYTES = {"DXT1": (1, 255), "DXT2": (2, 255), "DXT3": (3, 255), "DXT4": (4, 255), "DXT5": (5, 255), "RGBA4": (68, 68), "RGBA5": (21, 85), "RGBA8": (136, 136), "GRAYA": (128, 128)}
CODEC = {"DXT1": "Bc1", "DXT3": "Bc2", "DXT5": "Bc3"}
OPQ = lambda k: re.search(r"PaXType::|MipMap::from_stream|PaXType as|as_bytes$", k) is not None or re.search(r"convert::From<.*PaXType>", k) is not None
okret = lambda e: e.kind == "ret" and not is_err(e.res)
PANIC = re.compile(r"panicking|unwrap_failed|expect_failed|unimplemented|unreachable")


def run(ctx):
    ctx.load(["hemtt_paa"])
    formats(ctx)
    reading(ctx)
    mipmap(ctx)
    writing(ctx)
    image(ctx)


def bytes_of(q, t):
    t = Sizes(q).follow(t)
    if t.op == "bytes":
        b = t.a[0]
        return tuple(b if isinstance(b, bytes) else b.encode("latin-1"))
    if t.op == "agg" and t.a[0] == "arr":
        xs = [x.a[0] if x.op == "int" else None for x in t.a[3]]
        return tuple(xs)
    return None


def formats(ctx):
    p = ctx.p
    ctx.rule("the two bytes of every format, both ways; the decoder of a format")
    P = K + "pax::PaXType"
    f = p.find(P + "::as_bytes")
    q0 = ctx.query(f)
    for v, b in BYTES.items():
        q = settle(q0, [(r"arg1", [v])])
        got = {bytes_of(q, e.res) for e in q.rets()}
        ctx.expect(f"bytes.{v}", got == {b}, f"{v} is written as its two bytes", where=f.norm, detail=str(got))
    f = p.find(P + "::from_bytes")
    q0 = ctx.query(f)
    vals = sorted({x for b in BYTES.values() for x in b} | {0, 7})
    wrong = []
    for a in vals:
        for b in vals:
            q = at(q0, {r"arg1\[0\]": a, r"arg1\[1\]": b})
            got = {q.c(Sizes(q).follow(e.res)) for e in q.rets()}
            w = next((v for v, x in BYTES.items() if x == (a, b)), None)
            ok = got == {f"Option::Some(PaXType::{w})"} if w else got == {"Option::None"}
            if not ok:
                wrong.append(f"{(a, b)} gives {sorted(got)}"[:120])
    ctx.expect("from_bytes", not wrong, f"every pair of bytes gives its format and no other: {wrong[:2]}", witness=wrong[:5], where=f.norm, detail=f"{len(vals) ** 2} pairs")
    # no format that is used has another decoder than its own
    for b in p.fns.values():
        m = re.search(r"PaXType::(\w+)$", b.norm)
        dec = re.search(r"texture_format$|codec$", b.norm) is not None or re.search(r"as core::convert::(?:From|TryFrom)<.*PaXType>>::(?:from|try_from)$", b.norm) is not None
        if not dec:
            continue
        q0 = ctx.query(b)
        for v in BYTES:
            q = settle(q0, [(r"arg1", [v])])
            got = {q.c(Sizes(q).follow(e.res)) for e in q.rets()}
            w = CODEC.get(v)
            ok = got <= {f"Format::{w}", f"Option::Some(Format::{w})", f"Result::Ok(Format::{w})"} if w else all(re.match(r"Option::None|Result::Err", x) for x in got)
            ctx.expect(f"decoder.{v}", ok and (bool(got) or not w), f"{v} is decoded with its own codec only", where=b.norm, detail=str(got)[:160])


GET = r"(?:get|index)\((?:mut\()*HashMap::new\(\)\)*, \"SFFO\"\)\??"


def reading(ctx):
    p = ctx.p
    ctx.rule("reading: format, tags up to the first other signature, then the mipmap at every non-zero offset in order")
    f = p.find(K + "paa::Paa::read")
    q = ctx.query(f, opaque=OPQ)
    S = Sizes(q)
    c = q.c

    def magic(e):
        if e.kind != "br" or not isinstance(e.args[0], Term):
            return None
        if e.args[1] == "Err" and re.match(r"(?:converts::)?from_utf8\(.*rep\(0;4\)", c(e.args[0])):
            return "other"
        k, v = atom(q, e)
        if re.search(r"rep\(0;4\)", k) and re.search(r'"GGAT"', k) and re.match(r"eq\(", k) and v in (True, False):
            return "tag" if v else "other"
        return None

    def label(e):
        m = magic(e)
        if m:
            return m
        if e.kind != "call":
            return None
        if e.name.endswith("PaXType::from_stream"):
            return "format"
        k = read_kind(e)
        if k == "exact":
            b = c(obj(S.follow(e.args[1]), q.g))
            while re.match(r"(?:mut|into_boxed_slice|deref_mut|as_mut_slice)\(", b):
                b = re.sub(r"^\w+\((.*)\)$", r"\1", b)
            x = re.fullmatch(r"rep\(0;(\d+)\)", b)
            return f"exact{x.group(1)}" if x else "exact:len" if re.fullmatch(r"from_elem\(0, read_u32\(.*\)\?\)", b) else "exact:?"
        if k:
            return k
        if re.search(r"MipMap::from_stream$", e.name):
            return "mipmap"
        if re.search(r"HashMap::insert$", e.name):
            return "insert"
        if re.search(r"Vec::push$", e.name):
            return "push"
        return None

    spec = seq("format", star(seq("exact4", "tag", "exact4", "u32le", "exact:len", "insert")), "exact4", "other", star(seq("seek", "mipmap", "push")))
    check_language(ctx, "read-layout", q, label, spec, "a texture is read in the exact layout")
    # every tag with its name and all its bytes
    for e in q.calls(r"HashMap::insert$"):
        s = c(S.follow(e.args[1]))
        ctx.expect("tag.name", re.search(r"from_utf8\w*\((?:read_exact!1\(.*)?rep\(0;4\)", s) is not None, "a tag is kept under its name", where=e.where(), detail=s[:160])
        d = c(obj(S.follow(e.args[2]), q.g))
        ctx.expect("tag.data", re.search(r"from_elem\(0, read_u32\(", d) is not None and not re.search(r"\[Range|truncate|split", d), "a tag is kept with all its bytes", where=e.where(), detail=d[:160])
    # the result
    for e in q.rets():
        if is_err(e.res):
            continue
        fs = dict(leaf_fields(e.res.a[3][0])) if e.res.op == "agg" and e.res.a[3] else {}
        r = e.res.a[3][0] if e.res.op == "agg" and e.res.a[3] else e.res
        m = dict(zip(r.a[2], r.a[3])) if r.op == "agg" else {}
        ctx.expect("result.format", "format" in m and re.fullmatch(r"from_stream\(arg1\)\?", c(S.follow(m["format"]))) is not None, "the texture has the format it names", where=e.where(), detail=str(c(m["format"]) if "format" in m else None)[:160])
        ctx.expect("result.taggs", "taggs" in m and "HashMap::new" in c(S.follow(m["taggs"])), "the texture has the tags read", where=e.where())
        maps = c(S.follow(m["maps"])) if "maps" in m else ""
        ctx.expect("result.maps", re.search(r"Vec::new|from_stream\(", maps) is not None, "the texture has the mipmaps read", where=e.where(), detail=maps[:200])
    # an unknown format is an error
    bad = [e for e in settle(q, [(r"from_stream\(arg1\)", ["None", "Err"])]).rets() if not is_err(e.res)]
    ctx.expect("unknown", not bad, "an unknown format is an error", where=f.norm)
    # the offsets
    offs = [e for e in q.calls(r"HashMap::get$|ops::Index::index$") if re.search(r'"SFFO"', c(e.args[1]))]
    ctx.expect("offsets.table", bool(offs), "the offsets are those of the table", where=f.norm)
    seeks = q.calls(r"Seek::seek$")
    ctx.expect("offsets.seek", bool(seeks), "the mipmaps are looked for at their offsets", where=f.norm)
    zero = r"\((?:.*from_le_bytes.*) (?:Ne|Gt) 0\)|\(0 (?:Ne|Lt) .*from_le_bytes.*\)"

    def nonzero(e):
        if e.kind != "br" or not isinstance(e.args[0], Term):
            return None
        s = c(e.args[0])
        m = re.fullmatch(r"\(?(.*?from_le_bytes.*?)(?: (Ne|Eq|Gt) 0\))?", s)
        if not m:
            return None
        v = e.args[1]
        if m.group(2):
            return (v is True) == (m.group(2) != "Eq") if v in (True, False) else None
        return v != 0 and (isinstance(v, tuple) or None if not isinstance(v, int) else True) if not isinstance(v, bool) else None

    for e in seeks:
        a = S.follow(e.args[1])
        x = S.follow(a.a[3][0]) if a.op == "agg" and a.a[1] == "Start" else None
        ctx.expect("offsets.start", x is not None, "an offset counts from the start of the file", where=e.where(), detail=c(a)[:160])
        if x is None:
            continue
        ok, why = entry(q, S, x)
        ctx.expect("offsets.entry", ok, "an offset is the next four bytes of the table", where=e.where(), detail=why[:300])
    for b, k, elem, ev in ((h, *loop) for h, loop in loops(q)):
        if not re.search(r"SFFO", elem):
            continue
        # in the loop over the offsets: nothing else decides whether the mipmap is read
        def taken(e):
            return re.search(r"MipMap::from_stream$", e.name) is not None if e.kind == "call" else False
        ctx.ok("offsets.loop", f"loop over {elem[:80]}")
    lost = q.path_avoiding(lambda e: e.kind == "call" and re.search(r"MipMap::from_stream$", e.name) is not None, lambda e: okret(e) or (e.kind == "call" and NEXT.search(e.name) is not None), start=lambda e: nonzero(e) is True)
    ctx.expect("offsets.read", lost is None, "the mipmap of every offset is read", witness=trace_of(q, lost), where=f.norm)
    lost = q.path_avoiding(lambda e: nonzero(e) is False or (e.kind == "call" and re.search(r"MipMap::from_stream$", e.name) is not None), lambda e: okret(e) or (e.kind == "call" and NEXT.search(e.name) is not None), start=lambda e: e.kind == "br" and e.args[1] == "Some" and isinstance(e.args[0], Term) and re.search(r"SFFO", c(e.args[0])) is not None and NEXT.search(e.args[0].a[0] if e.args[0].op == "call" else "") is not None)
    ctx.expect("offsets.all", lost is None, "only an offset of zero is left out", witness=trace_of(q, lost), where=f.norm)
    # the loop goes on to the end of the table
    lost = q.path_avoiding(lambda e: False, okret, start=lambda e: e.kind == "call" and re.search(r"Vec::push$", e.name) is not None)
    stop = q.path_avoiding(lambda e: e.kind == "br" and e.args[1] == "None", okret, start=lambda e: e.kind == "call" and re.search(r"Vec::push$", e.name) is not None)
    ctx.expect("offsets.end", stop is None, "the table is read to its end", witness=trace_of(q, stop), where=f.norm)
    stop = q.path_avoiding(lambda e: e.kind == "br" and e.args[1] == "None", okret, start=lambda e: nonzero(e) is False)
    ctx.expect("offsets.end0", stop is None, "an empty entry does not end the table", witness=trace_of(q, stop), where=f.norm)
    # decoder and panics
    for e in q.calls(r"MipMap::from_stream$"):
        s = c(S.follow(e.args[0]))
        ctx.expect("maps.format", re.fullmatch(r"(?:texture_format|into|from|try_from|try_into|codec)?\(?(?:Format::from\()?from_stream\(arg1\)\?\)*\??", s) is not None, "a mipmap has the texture's format", where=e.where(), detail=s[:160])
        ctx.expect("maps.source", c(obj(e.args[1], q.g)) == "arg1", "a mipmap is read where its offset says", where=e.where(), detail=c(e.args[1])[:160])
    qq = ctx.query(f, opaque=lambda k: re.search(r"MipMap::from_stream", k) is not None)
    for e in qq.events():
        if e.kind == "call" and PANIC.search(e.name):
            ctx.bad("panic", f"reading does not panic: {e.name}", where=e.where())
    ctx.ok("panics", "calls that panic looked for")


def trace_of(q, path):
    return [str(x)[:160] for x in path or ()][-12:]


def loops(q):
    for h in loop_heads(q):
        yield h[1], (h[0], h[2], h[3])


def entry(q, S, x):
    """is the value the i-th four bytes of the table, little endian, i the number of the round"""
    c = q.c
    while x.op == "cast" or x.op in ("call", "pure") and x.a[0].split("::")[-1] in ("from", "into"):
        x = S.follow(x.a[1] if x.op == "cast" else x.a[1][0])
    if not (x.op in ("call", "pure") and x.a[0].endswith("from_le_bytes")):
        return False, c(x)
    b = S.follow(x.a[1][0])
    CHUNK = r"(?:chunks_exact|chunks|as_chunks|array_chunks)\(" + GET + r"(?:, 4)?\)\[\*\]"
    if b.op == "agg" and b.a[0] == "arr":
        xs = [S.follow(y) for y in b.a[3]]
        if len(xs) != 4 or any(y.op not in ("idx", "call", "pure") for y in xs):
            return False, c(b)
        at_ = [(S.follow(y.a[0]), y.a[1]) if y.op == "idx" else (S.follow(y.a[1][0]), y.a[1][1]) if len(y.a[1]) == 2 else (y, None) for y in xs]
        if [re.fullmatch(CHUNK + rf"\[{i}\]", c(y)) is not None for i, y in enumerate(xs)] == [True] * 4:
            return True, ""
        if any(not re.fullmatch(GET, c(o)) or not isinstance(i, (Term, int)) for o, i in at_):
            return False, c(b)
        ls = [const(i) if isinstance(i, int) else S.lin(i) for _, i in at_]
        if any(l.plus(ls[0], -1) != const(i) for i, l in enumerate(ls)):
            return False, c(b)
        return fourth(q, ls[0])
    n = 0
    rng = None
    while n < 12:
        n += 1
        b = S.follow(b)
        if b.op == "out" and b.a[0].op == "call" and re.search(r"(?:clone|copy)_from_slice$", b.a[0].a[0]) and b.a[1] == 0:
            b = b.a[0].a[1][1]
        elif b.op == "fld" and b.a[2] in ("Ok", "Some") and not (b.a[0].op == "call" and NEXT.search(b.a[0].a[0])):
            b = b.a[0]
        elif b.op in ("call", "pure") and re.search(r"::(try_into|try_from|into|from|as_ref|deref|unwrap\w*|expect|ok|map_err|ok_or\w*)$", b.a[0]) and b.a[1]:
            b = b.a[1][0]
        elif b.op in ("call", "pure") and re.search(r"::(index|get)$", b.a[0]) and rng is None and re.search(r"Range", c(b.a[1][1])):
            rng, b = S.follow(b.a[1][1]), b.a[1][0]
            break
        elif b.op == "idx" and isinstance(b.a[1], Term) and S.follow(b.a[1]).op == "agg" and re.search(r"Range", S.follow(b.a[1]).a[0]):
            rng, b = S.follow(b.a[1]), b.a[0]
            break
        else:
            break
    s = c(S.follow(b))
    if rng is None:
        return re.fullmatch(CHUNK, s) is not None, s
    if not re.fullmatch(GET, s) or rng.op != "agg":
        return False, s
    m = dict(zip(rng.a[2], rng.a[3]))
    if not {"start", "end"} <= set(m):
        return False, c(rng)
    lo, hi = S.lin(m["start"]), S.lin(m["end"])
    if hi.plus(lo, -1) != const(4):
        return False, c(rng)
    return fourth(q, lo)


def fourth(q, lo):
    """is it four times the number of the round"""
    if len(lo) != 1:
        return False, str(lo)
    (k, v), = lo.items()
    ks = q.c(k) if isinstance(k, Term) else str(k)
    LEN = rf"len\({GET}\)"
    each = re.fullmatch(rf"Range\(start:0, end:\({LEN} Div 4\)\)\[\*\]", ks) is not None and v == 4 or v == 1 and re.fullmatch(rf"step_by\(Range\(start:0, end:(?:{LEN}|\(.*\))\), 4\)\[\*\]", ks) is not None
    return each, f"{v}*{ks}"


def mipmap(ctx):
    p = ctx.p
    ctx.rule("a mipmap: width, height, length, that many bytes; compressed by the top bit of the width")
    f = p.find(K + "mipmap::MipMap::from_stream")
    q = ctx.query(f)
    S = Sizes(q)
    c = q.c
    rets = [e for e in q.rets() if not is_err(e.res)]
    fm = field_of_reads(q, rets, lambda t: t)
    okf = {k: "/".join(sorted(x.split(".")[-1] for x in v)) for k, v in fm.items()}

    def label(e):
        k = read_kind(e)
        if k is None:
            return None
        if k == "exact":
            b = c(obj(S.follow(e.args[1]), q.g))
            return "exact:length" if re.search(r"^\W*(?:\w+\()*from_elem\(0, read_u24\([^,]*\)\?\)+$", b) else f"exact:{b}"[:80]
        return f"{k}:{okf.get(e.res, '')}"

    d = [seq("u16le:width", "u16le:height", x, "exact:length") for x in ("u24le:", "u24le:data")]
    sp = next((x for x in d if compare(q.nfa(label, okret).dfa(), regex(x)) is None), d[0])
    check_language(ctx, "mipmap-layout", q, label, sp, "a mipmap is read in the exact layout")
    for e in rets:
        r = e.res.a[3][0] if e.res.op == "agg" and e.res.a[3] else e.res
        m = dict(zip(r.a[2], r.a[3])) if r.op == "agg" else {}
        ctx.expect("mipmap.format", "format" in m and c(S.follow(m["format"])) == "arg1", "a mipmap has the format given", where=e.where())
        dt = c(obj(S.follow(m["data"]), q.g)) if "data" in m else ""
        ctx.expect("mipmap.data", re.search(r"from_elem\(0, read_u24", dt) is not None and not re.search(r"\[Range", dt), "a mipmap has all its bytes", where=e.where(), detail=dt[:160])
        for n in ("width", "height"):
            s = c(S.follow(m[n])) if n in m else ""
            ctx.expect(f"mipmap.{n}", re.fullmatch(r"read_u16\([^?]*\)\?", s) is not None, f"the {n} is kept as it was read", where=e.where(), detail=s[:120])
    for name, want in (("width", lambda w: w & 0x7FFF), ("is_compressed", lambda w: int(w >> 15)), ("height", None)):
        f = p.find(K + "mipmap::MipMap::" + name)
        q = ctx.query(f)
        for w in (0, 1, 4, 512, 0x7FFF, 0x8000, 0x8001, 0x8200, 0xFFFF):
            g = {r"arg1\.(?:width|height)": w}
            qq = at(q, g)
            got = {Concrete(qq, g).val(e.res) for e in qq.rets()}
            x = want(w) if want else w
            ctx.expect(f"mipmap.{name}()", got == {x}, f"{name} of {w:#x} is {x}", where=f.norm, detail=str(got))
    for name in ("data", "format"):
        f = p.find(K + "mipmap::MipMap::" + name)
        q = ctx.query(f)
        got = {q.c(e.res) for e in q.rets()}
        ctx.expect(f"mipmap.{name}()", got == {f"arg1.{name}"}, f"{name} is the {name}", where=f.norm, detail=str(got))


def image(ctx):
    p = ctx.p
    ctx.rule("decoding: from all unpacked bytes, with the mipmap's format and real size; failures are not passed over")
    f = p.find(K + "mipmap::MipMap::get_image")
    q0 = ctx.query(f, opaque=lambda k: k.startswith("hemtt_lzo"))
    for w in (4, 512, 0x7FFC, 0x8004, 0x8200):
        for h in (4, 256):
            packed = w >= 0x8000
            g = {r"arg1\.width": w, r"arg1\.height": h}
            q = at(q0, g)
            S = Sizes(q)
            C = Concrete(q, g)
            real = w & 0x7FFF
            key = "packed" if packed else "plain"
            dec = q.calls(r"texpresso::Format::decompress$|Format::decompress$")
            ctx.expect(f"{key}.decodes", bool(dec), "an image is decoded", where=f.norm)
            lz = q.calls(r"hemtt_lzo::decompress\w*$")
            ctx.expect(f"{key}.unpacks", bool(lz) == packed, "exactly packed bytes are unpacked", where=f.norm, detail=f"width {w:#x}")
            for e in lz:
                ctx.expect(f"{key}.input", q.c(obj(S.follow(e.args[0]), q.g)) == "arg1.data", "all bytes of the mipmap are unpacked", where=e.where(), detail=q.c(e.args[0])[:120])
                b = source_size(q, S, e.args[1])
                ok = b is not None and b.op in ("call", "pure") and b.a[0].endswith("compressed_size") and q.c(S.follow(b.a[1][0])) == "arg1.format" and [C.val(x) for x in b.a[1][1:]] == [real, h]
                ctx.expect(f"{key}.buffer", ok, "they are unpacked to as many bytes as the format needs for the size", where=e.where(), detail=q.c(b)[:160] if b is not None else "")
            for e in dec:
                a = e.args
                ctx.expect(f"{key}.format", q.c(S.follow(a[0])) == "arg1.format", "decoded with its own format", where=e.where())
                ctx.expect(f"{key}.size", [C.val(a[2]), C.val(a[3])] == [real, h], "decoded with its real size", where=e.where(), detail=f"{C.val(a[2])}x{C.val(a[3])} for {real}x{h}")
                d = S.follow(a[1])
                if packed:
                    root = lambda t: buffer(S, t, q.g)
                    ok = unpacked(q, S, d) or bool(lz) and all(root(x.args[1]) is root(d) for x in lz) and q.path_avoiding(lambda x: x in lz, lambda x: x is e) is None
                else:
                    ok = q.c(obj(d, q.g)) == "arg1.data"
                ctx.expect(f"{key}.bytes", ok, "decoded from all of its bytes", where=e.where(), detail=q.c(d)[:160])
                o = source_size(q, S, a[4])
                ctx.expect(f"{key}.pixels", o is not None and C.val(o) == 4 * real * h, "four bytes per pixel are decoded", where=e.where(), detail=q.c(o)[:120] if o is not None else "")
            if packed:
                # when unpacking fails no image comes out
                un = [e for e in lz]
                okr = lambda e: e.kind == "ret" and not is_err(e.res)
                failed = lambda e: e.kind == "br" and e.args[1] in ("Err", "None", False) and isinstance(e.args[0], Term) and re.search(r"decompress_to_slice\(|hemtt_lzo|decompress\(arg1\.data", q.c(e.args[0])) is not None
                good = lambda e: e.kind == "br" and e.args[1] in ("Ok", "Some", True) and isinstance(e.args[0], Term) and re.search(r"decompress_to_slice\(|decompress\(arg1\.data", q.c(e.args[0])) is not None
                panics = any(e.kind == "call" and PANIC.search(e.name) and any(re.search(r"decompress_to_slice\(", q.c(x)) for x in e.args if isinstance(x, Term)) for e in q.events())
                checked = q.path_avoiding(good, okr, start=lambda e: e in un) is None
                ctx.expect("packed.failure", panics or checked, "bytes that cannot be unpacked do not give an image", where=f.norm)
            for e in q.calls(r"ImageBuffer::from_raw$"):
                ctx.expect(f"{key}.raw", [C.val(e.args[0]), C.val(e.args[1])] == [real, h], "the image has the real size", where=e.where())
                t = S.follow(e.args[2])
                ts = {S.follow(x) for x in S.edges(t).values()} if t.op == "phi" else {t}
                ctx.expect(f"{key}.raw.data", all(x.op == "out" and x.a[0].op == "call" and x.a[0].a[0].endswith("Format::decompress") and x.a[1] == 4 for x in ts), "the image is what was decoded", where=e.where(), detail=q.c(t)[:120])


def source_size(q, S, t):
    """the size with which a buffer was made"""
    b = obj(S.follow(t), q.g)
    for _ in range(10):
        b = S.follow(b)
        if b.op in ("call", "pure") and b.a[0].endswith("from_elem"):
            return S.follow(b.a[1][1])
        if b.op == "out" and b.a[0].op == "call":
            b = b.a[0].a[1][b.a[1]]
        elif b.op == "cast":
            b = b.a[1]
        elif b.op in ("call", "pure") and re.search(r"::(into_boxed_slice|deref\w*|as_mut\w*|into|from|as_slice|to_vec)$", b.a[0]):
            b = b.a[1][0]
        else:
            return None
    return None


def unpacked(q, S, d):
    """is it what was unpacked, whole"""
    for _ in range(10):
        d = S.follow(d)
        if d.op == "out" and d.a[0].op == "call" and d.a[0].a[0].startswith("hemtt_lzo"):
            return True
        if d.op == "fld" and d.a[2] in ("Ok", "Some"):
            d = d.a[0]
        elif d.op == "call" and d.a[0].startswith("hemtt_lzo"):
            return True
        elif d.op == "cast":
            d = d.a[1]
        elif d.op in ("call", "pure") and re.search(r"::(deref\w*|as_ref|as_slice|into|from|into_boxed_slice|to_vec|expect|unwrap)$", d.a[0]) and d.a[1]:
            d = d.a[1][0]
        else:
            return False
    return False


def writing(ctx):
    p = ctx.p
    ctx.rule("writing: tags, the table with the place of the image, and the image in as many bytes as it says")
    f = p.find(K + "paa::Paa::write")
    q = ctx.query(f, opaque=lambda k: re.search(r"PaXType::as_bytes", k) is not None)
    S = Sizes(q)
    c = q.c
    sizes = {}
    for e in q.events():
        if e.kind == "call" and e.name.endswith("mem::size_of"):
            sizes.setdefault(e.res, set()).add({"u8": 1, "u16": 2, "u32": 4, "u64": 8}.get(e.targs[0] if e.targs else "", None))
    word = {v for s in sizes.values() for v in s}
    dims = {r"(?:ImageBuffer::)?width\(arg1\)": None, r"(?:ImageBuffer::)?height\(arg1\)": None}

    def num(t):
        """a number that does not depend on the image"""
        t = S.follow(t)
        g = {r"(?:mem::)?size_of\(\)": next(iter(word)) if len(word) == 1 and None not in word else None}
        return Concrete(q, {k: v for k, v in g.items() if v is not None}).val(t)

    def emitted(e):
        """(label, size) of a write"""
        if e.kind != "call":
            return None
        m = WR.search(e.name)
        if m:
            n = int(m.group(2)) // 8
            v = num(e.args[1])
            k = m.group(1) + m.group(2) + (endian(e) if m.group(2) != "8" else "")
            return (f"{k}:{v}" if v is not None else f"{k}:{what(e.args[1])}", const(n))
        if re.search(r"Write::write_all$", e.name):
            t = S.follow(e.args[1])
            b = bytes_of(q, t)
            if b is not None and None not in b:
                return (repr(bytes(b)), const(len(b)))
            s = c(t)
            if re.fullmatch(r"(?:as_bytes\()?PaXType::DXT5\)?", s):
                return (repr(bytes(BYTES["DXT5"])), const(2))
            if t.op == "rep" or re.fullmatch(r"rep\(0;\d+\)", s):
                n = int(re.sub(r"[^0-9]", "", s.split(";")[1]))
                return (repr(bytes(n)), const(n))
            o = source_size(q, S, t)
            ok = t.op == "out" and t.a[0].op == "call" and t.a[0].a[0].endswith("Format::compress")
            return ("image" if ok and o is not None else f"?{s[:60]}", S.lin(o) if o is not None else TOP)
        if re.search(r"Write::(write|write_fmt)$", e.name):
            return ("partial", TOP)
        return None

    def what(t):
        s = c(S.follow(t))
        t = S.follow(t)
        while t.op == "cast" or t.op in ("call", "pure") and t.a[0].split("::")[-1] in ("from", "into", "try_from", "try_into", "from_le_bytes") or t.op == "fld" and t.a[2] in ("Ok", "Some"):
            t = S.follow(t.a[1] if t.op == "cast" else t.a[0] if t.op == "fld" else t.a[1][0])
        s = c(t)
        s = re.sub(r"(?:ImageBuffer::)?dimensions\(arg1\)\.([01])", lambda m: ("width", "height")[int(m.group(1))] + "(arg1)", s)
        if re.fullmatch(r"(?:ImageBuffer::)?(width|height)\(arg1\)", s):
            return s.split("::")[-1].split("(")[0]
        if re.fullmatch(r"compressed_size\(PaXType::DXT5, width\(arg1\), height\(arg1\)\)|compressed_size\(Format::Bc3, width\(arg1\), height\(arg1\)\)", s):
            return "size"
        if re.match(r"len\(", s):
            return "size" if re.search(r"compressed_size\((?:PaXType::DXT5|Format::Bc3), width\(arg1\), height\(arg1\)\)", s) else "?"
        return "colour" if re.search(r"pixels\(arg1\)|arg1", s) and not re.search(r"compressed_size", s) else "?"

    label = lambda e: (emitted(e) or (None,))[0]
    tag = lambda name, *body: seq(repr(b"GGAT" + name), *body)
    pos = {k[4:] for k in {label(e) for e in q.events()} if k and re.match(r"u32le:\d+$", k or "")}
    heads = [x for x in {label(e) for e in q.events()} if x and re.fullmatch(r"u32le:\d+", x)]
    body = seq("u16le:width", "u16le:height", "u24le:size", "image")
    avg, mx = tag(b"CGVA", "u32le:4", "u32le:colour"), tag(b"CXAM", "u32le:4", "u32le:colour")
    cands = []
    for a in sorted(heads, key=len, reverse=True):
        for z in (repr(bytes(60)), star("u32le:0")):
            for tags in (seq(avg, mx), seq(mx, avg)):
                cands.append(seq(repr(bytes(BYTES["DXT5"])), tags, tag(b"SFFO", "u32le:64", a, z), body))
    d = q.nfa(expanded(label), okret).dfa()
    spec = next((x for x in cands if compare(d, regex(spelled(x))) is None), cands[0] if cands else None)
    if not ctx.expect("write.numbers", spec is not None, "the table has an offset", where=f.norm):
        return
    check_language(ctx, "write-layout", q, label, spec, "a texture is written in the exact layout")
    # how often the loops of zeros run
    rounds = {}
    for h in loop_heads(q):
        m = re.match(r"Range\(start:(\d+), end:(\d+)\)", h[2])
        if m:
            rounds[h[2]] = int(m.group(2)) - int(m.group(1))
    elem = lambda e: Canon(q).elem(e.args[0].a[1][0]) if e.kind == "br" and isinstance(e.args[0], Term) and e.args[0].op == "call" and NEXT.search(e.args[0].a[0]) else None
    zeros = [e for e in q.events() if label(e) == "u32le:0"]
    inl = {}
    for e in zeros:
        for k in rounds:
            if q.path_avoiding(lambda x: x is e, lambda x: x.kind == "call" and NEXT.search(x.name) is not None, start=lambda x: (elem(x) or "").startswith(k) and x.args[1] == "Some") is None:
                inl[e] = k

    def size(e):
        x = emitted(e)
        if x and label(e) == "u32le:0" and e in inl:
            return None
        if x:
            return x[1]
        if elem(e) and e.args[1] == "None":
            n = sum(1 for z, k in inl.items() if elem(e).startswith(k))
            k = next((k for k in rounds if elem(e).startswith(k)), None)
            return const(4 * n * rounds[k]) if k else None
        return None

    val, _ = ghost(S, size)
    places = []
    table_at = []
    for n, es in q.g.succ.items():
        for i, (ev, m) in enumerate(es):
            v = val.get(n, TOP)
            for e in flat(ev):
                if label(e) == "u16le:width":
                    places.append((e, v))
                if label(e) == repr(b"GGATSFFO"):
                    table_at.append((e, v))
                d_ = size(e)
                if d_ is not None and v is not TOP:
                    v = TOP if d_ is TOP else v.plus(d_)
    want = {int(x[6:]) for x in heads if x not in ("u32le:0", "u32le:4", "u32le:64")}
    for e, v in places:
        ctx.expect("write.offset", v is not TOP and set(v) <= {1} and want == {v.get(1, 0)}, "the first offset is where the image starts", where=e.where(), detail=f"{'unknown' if v is TOP else dict(v)} / {want}")
    for e, v in table_at:
        for e2, v2 in places:
            ok = v is not TOP and v2 is not TOP and v2.plus(v, -1) == const(8 + 4 + 64)
            ctx.expect("write.table", ok, "the table has 16 entries", where=e.where(), detail=f"{v} {v2}")
    # what does not fit is refused
    W, H, SZ = r"(?:ImageBuffer::)?width\(arg1\)", r"(?:ImageBuffer::)?height\(arg1\)", r"compressed_size\(.*\)"
    for w, h, s, ok in ((0x8000, 16, 64, False), (0x10000, 16, 64, False), (16, 0x10000, 64, False), (0x7FFF, 16, 0x1000000, False), (4096, 4100, 16793600, False), (512, 512, 0x40000, True), (0x7FFC, 4, 131056, True), (4096, 4092, 16760832, True)):
        qq = at(q, {W: w, H: h, SZ: s})
        rs = {not is_err(e.res) for e in qq.rets()}
        written = any(label(e) for e in qq.events())
        if ok:
            ctx.expect("fits", True in rs, f"an image of {w}x{h} is written", where=f.norm)
        else:
            ctx.expect("unfit", True not in rs, f"an image of {w}x{h} is an error", where=f.norm)
    for e in q.calls(r"Format::compress$"):
        a = [c(S.follow(x)) for x in e.args]
        ctx.expect("coded", a[0] in ("PaXType::DXT5", "Format::Bc3") and re.fullmatch(r"(?:as_bytes|as_raw|deref|into_raw)?\(?arg1\)?(?:\[\])?", a[1]) is not None and a[2] == "width(arg1)" and a[3] == "height(arg1)", "the whole image is coded in the format named", where=e.where(), detail=str(a[:4])[:200])
