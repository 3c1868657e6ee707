"""What a signature's hashes cover."""
from rules import *
from wire import *

META = dict(
    title="The three signed hashes cover checksum, names, selected contents and prefix",
    statement="Hash 1 is the PBO's recomputed checksum; hash 2 is SHA-1 of that checksum, the file-name hash and the prefix (followed by exactly one trailing backslash, added only when missing); hash 3 is the same with the file-content hash of the requested version in place of the checksum; each is padded PKCS#1-style with the SHA-1 DigestInfo to the key's byte length. The name hash covers every non-empty file's lower-cased backslash name in sorted order, the content hash covers every file whose extension the version selects (the version's own placeholder when none), and signing raises each padded hash to the private exponent modulo n in its own slot.",
    over=["inputs"],
    forall="all PBOs, prefixes, versions and key lengths",
    why="tests cover three fixture PBOs; prefixes with and without trailing backslash, empty files, unselected extensions and both versions' placeholders are not combined",
    files=["libs/signing/src/lib.rs", "libs/signing/src/private.rs", "libs/pbo/src/read.rs", "libs/common/src/sign_version.rs"],
    mech=[("generate_hashes / pad_hash", "libs/signing/src/lib.rs"), ("hash_filenames / hash_files", "libs/pbo/src/read.rs"), ("BISignVersion tables", "libs/common/src/sign_version.rs")],
    technique="automata over the data fed to each hasher object (per-object language equality) plus value provenance of the padded results and table extraction",
    note="All paths; SHA-1 and modpow assumed correct.",
)

GH = "hemtt_signing::generate_hashes"
R = "hemtt_pbo::read::ReadablePbo::"
SGN = "hemtt_common::sign_version::BISignVersion::"
V2 = "fxy jpg lip ogg p3d paa pac png rtm rvmat tga wrp wss".split()
V3 = "bikb cfg ext fsm h hpp inc sqf sqfc sqm sqs".split()


def um(s):
    """ignore earlier mutation of the PBO argument"""
    return re.sub(r"mut\((arg\d)\)", r"\1", s)


def hasher(q, e):
    """(digest object, data) when e feeds bytes to a digest"""
    s = io_sink(q, e)
    if s is None or s[0] not in ("H", "C"):
        return None
    o = s[1]
    if o.op == "call" and o.a[0].endswith("::new") and "igest" in o.a[0] or (o.op == "call" and o.a[0].endswith("Default::default")):
        return o, s[2]
    return (o, s[2]) if s[0] == "H" else None


def flat_bytes(q, t):
    """a byte buffer built by appending, as a list of pieces: bytes | ('pad', n, v) | text"""
    t = strip_view(t)
    if t.op == "phi":
        xs = {repr(flat_bytes(q, x)) for x in q.g.phi.get(t, ()) if x is not t}
        return flat_bytes(q, next(iter(q.g.phi[t]))) if len(xs) == 1 else None
    if t.op in ("bytes", "str"):
        return [t.a[0].encode("latin1") if isinstance(t.a[0], str) else t.a[0]]
    if t.op == "agg" and t.a[0] == "arr" and all(x.op == "int" for x in t.a[3]):
        return [bytes(x.a[0] & 255 for x in t.a[3])]
    if t.op == "rep" and t.a[0].op == "int" and isinstance(t.a[1], int):
        return [bytes([t.a[0].a[0]]) * t.a[1]]
    if t.op in ("call", "pure") and BUFCTOR.search(t.a[0]):
        return []
    if t.op in ("call", "pure") and t.a[0].endswith("from_elem"):
        return [("fill", q.c(t.a[1][1]), q.c(t.a[1][0]))]
    if t.op in ("call", "pure") and t.a[0].endswith("concat"):
        out = []
        for x in t.a[1][0].a[3] if t.a[1][0].op == "agg" else (None,):
            y = flat_bytes(q, x) if x is not None else None
            if y is None:
                return None
            out += y
        return out
    if t.op == "out" and t.a[1] == 0 and t.a[0].op in ("call", "pure"):
        nm, args = t.a[0].a[0], t.a[0].a[1]
        last = nm.split("::")[-1]
        b = flat_bytes(q, args[0])
        if b is None:
            return None
        if last in ("extend", "extend_from_slice", "write_all", "append"):
            x = flat_bytes(q, args[1])
            return b + (x if x is not None else [q.c(args[1])])
        if last == "push":
            return b + [bytes([args[1].a[0]]) if args[1].op == "int" else q.c(args[1])]
        if last == "resize":
            return b + [("resize", q.c(args[1]), q.c(args[2]))]
        if last in ("reserve", "reserve_exact"):
            return b
        return None
    return [q.c(t)]


def merge(ps):
    out = []
    for x in ps:
        if isinstance(x, bytes):
            if not x:
                continue
            if out and isinstance(out[-1], bytes):
                out[-1] += x
                continue
        out.append(x)
    return out


DER = bytes.fromhex("003021300906052b0e03021a05000414")


def run(ctx):
    ctx.load(["hemtt_signing", "hemtt_pbo", "hemtt_common"])
    ctx.rule("per hasher object, the language of data fed to it equals the specified one; each result component is the padding of its own hash; table functions equal their tables")
    okret = lambda e: e.kind == "ret" and not is_err(e.res)
    op = lambda k: k.startswith(R) and k.split("::")[-1] in ("gen_checksum", "hash_filenames", "hash_files")
    q = ctx.query(GH, opaque=op)
    CK, NM, CT = "gen_checksum(arg1)?", "hash_filenames(arg1)?", "hash_files(arg1, arg2)?"
    PRE = 'get(arg1.properties, "prefix")?'

    def norm(s):
        s = um(s)
        s = re.sub(r"\?\.0$", "?", s)
        s = re.sub(r"^(as_bytes|as_slice|as_ref|deref)\((.*)\)$", r"\2", s)
        return s

    def fed(e):
        h = hasher(q, e)
        if h is None:
            return None
        s = norm(q.c(h[1]))
        if h[1].op in ("bytes", "str"):
            s = tobytes(q, h[1])
        if h[1].op == "int" and h[1].a[0] == 92:
            s = "b'\\\\\\\\'"
        return h[0], s

    # which hasher each result component comes from
    slots = {}
    for e in q.rets():
        if is_err(e.res):
            continue
        tup = obj(e.res.a[3][0], q.g) if e.res.op == "agg" and e.res.a[3] else None
        if tup is None or tup.op != "agg" or len(tup.a[3]) != 3:
            ctx.bad("result", f"the result is a triple of padded hashes ({q.c(e.res)[:100]})", where=GH)
            return
        for i, v in enumerate(tup.a[3]):
            slots.setdefault(i, []).append(v)
    hs = {}
    for i in (0, 1, 2):
        for v in slots.get(i, ()):
            v = obj(v, q.g)
            ok = v.op in ("call", "pure") and v.a[0].endswith("from_bytes_be")
            ps = flat_bytes(q, v.a[1][0]) if ok else None
            ps = merge(ps) if ps else None
            pad = None
            if ps and len(ps) >= 3:
                N = "(arg3 Div 8)"
                if ps[0] == b"\0\1" and ps[1] in [("resize", f"({N} Sub {k})", "255") for k in (36,)] and ps[2] == DER and len(ps) == 4:
                    pad = ps[3]
                if ps[0] == b"\0\1" and ps[1] in (("fill", f"({N} Sub 38)", "255"), ("fill", f"(({N} Sub 36) Sub 2)", "255")) and ps[2] == DER and len(ps) == 4:
                    pad = ps[3]
            ctx.expect(f"pad{i+1}", pad is not None, f"hash {i+1} is padded with 00 01 FF.. and the SHA-1 DigestInfo to the key's byte length ({ps})", where=GH)
            if pad is None:
                continue
            fins = reaches(q.g, v.a[1][0], lambda t: t.op == "call" and (HASH_FIN.search(t.a[0]) is not None or t.a[0].endswith("gen_checksum")))
            if i == 0:
                ctx.expect("hash1", norm(pad) == CK, f"hash 1 is the recomputed checksum ({norm(pad)[:80]})", where=GH)
            else:
                os_ = {obj(t.a[1][0], q.g) for t in fins if HASH_FIN.search(t.a[0])}
                ctx.expect(f"hash{i+1}.source", len(os_) == 1 and "finalize" in pad, f"hash {i+1} is one finalized hasher ({pad[:80]})", where=GH)
                hs[i] = os_
    ends = lambda v: lambda e: e.kind == "br" and e.args[1] is v and re.fullmatch(r"ends_with\(" + re.escape(PRE) + r', (92|"\\\\"|b"\\\\")\)', um(q.c(e.args[0])))
    for i, first in ((1, CK), (2, CT)):
        if len(hs.get(i, ())) != 1:
            continue
        (o,) = hs[i]
        lab = lambda e, o=o: (lambda f: f[1] if f is not None and f[0] is o else None)(fed(e))
        labs = {lab(e) for e in q.events()} - {None}
        bs = [x for x in labs if x in ("b'\\\\'", "b'\\\\\\\\'")]
        bs = bs[0] if bs else "b'\\\\'"
        check_language(ctx, f"hash{i+1}", q, lab, seq(first, NM, opt(PRE, opt(bs))), f"data hashed for hash {i+1}")
        fp = lambda e, lab=lab: lab(e) == PRE
        fb = lambda e, lab=lab: lab(e) == bs
        # with a prefix it is hashed; the separator is added exactly when missing
        none = lambda e: e.kind == "br" and um(q.c(e.args[0])) == PRE[:-1] and e.args[1] == "None"
        fin = lambda e, o=o: e.kind == "call" and HASH_FIN.search(e.name) and obj(e.args[0], q.g) is o
        tr = q.path_avoiding(lambda e: fp(e) or none(e), fin, start=lambda e, lab=lab: lab(e) == NM)
        ctx.expect(f"hash{i+1}.prefix-decided", tr is None, "the prefix is left out only when there is none", tr or (), GH)
        tr = q.path_avoiding(lambda e: fb(e) or ends(True)(e), fin, start=fp)
        ctx.expect(f"hash{i+1}.separator", tr is None, "a missing trailing backslash is added", tr or (), GH)
        tr = q.path_avoiding(lambda e, lab=lab: fin(e) or lab(e) == first, fb, start=ends(True))
        ctx.expect(f"hash{i+1}.separator-once", tr is None and any(ends(True)(e) for e in q.events()), "a trailing backslash already there is not doubled", tr or (), GH)
    # names
    q = ctx.query(R + "hash_filenames")
    S = "sorted<to_lowercase(_.filename)>(arg1.headers)[*]"

    def h1(e):
        h = hasher(q, e)
        return None if h is None else um(q.c(h[1]))

    NORM = [f'to_lowercase(replace({S}.filename, {a}, {b}))' for a in ("47", '"/"') for b in ('"\\\\"', "92")] + [f'replace(to_lowercase({S}.filename), {a}, {b})' for a in ("47", '"/"') for b in ('"\\\\"', "92")]
    NORM = [f'to_lowercase(replace({S}.filename, {a}, "\\\\"))' for a in ("47", '"/"')] + [f'replace(to_lowercase({S}.filename), {a}, "\\\\")' for a in ("47", '"/"')]
    lab = lambda e: (lambda s: None if s is None else ("NAME" if s in NORM else s))(h1(e))
    check_language(ctx, "names", q, lab, star("NAME"), "data hashed by hash_filenames")
    empty = lambda e: e.kind == "br" and isinstance(e.args[1], (bool, str, int)) and is_empty_br(q, e, S)
    r, why = every_iteration(q, lambda e: lab(e) == "NAME" or empty(e) or (e.kind == "br" and is_missing_br(q, e)), lambda el: el == S, okret)
    ctx.expect("names.all", r, "every file's name is hashed unless the file is empty or missing", why[0][2] if not r and why else (), R + "hash_filenames")
    ctx.expect("names.skip-empty", any(empty(e) for e in q.events()), "empty files are left out", where=R + "hash_filenames")
    heads = [h for k, h, el, ev in loop_heads(q) if el == S]
    tr = q.path_avoiding(lambda e: any(h(e) for h in heads), lambda e: lab(e) == "NAME", start=empty)
    ctx.expect("names.skip-empty-only", tr is None, "the name of an empty file is not hashed", tr or (), R + "hash_filenames")
    # contents
    q = ctx.query(R + "hash_files", opaque=lambda k: k.startswith(SGN))

    def h2(e):
        s = io_sink(q, e)
        if s is None or s[0] == "W":
            return None
        t = um(q.c(s[2]))
        if s[0] == "C":
            return "CONTENT" if re.match(r"File\(size:arg1\.headers\[\*\]\.size, read:0, input:arg1\.input\)", t) else "copy:" + t
        return t

    NO = "nothing(arg2)"
    check_language(ctx, "contents", q, h2, alt(star("CONTENT"), NO), "data hashed by hash_files")
    SH = f"should_hash_file(arg2, {S}.filename)"
    sel = lambda v: lambda e: e.kind == "br" and e.args[1] is v and um(q.c(e.args[0])) == SH
    gone = lambda e: e.kind == "br" and e.args[1] == "None" and "headers" in um(q.c(e.args[0])) and S not in um(q.c(e.args[0]))[:len(S) + 6]
    r, why = every_iteration(q, lambda e: h2(e) == "CONTENT" or sel(False)(e) or gone(e), lambda el: el == S, okret)
    ctx.expect("contents.all", r, "every selected file's content is hashed", why[0][2] if not r and why else (), R + "hash_files")
    heads = [h for k, h, el, ev in loop_heads(q) if el == S]
    filt = any(el.startswith("filtered<should_hash_file") for k, h, el, ev in loop_heads(q))
    ctx.expect("contents.selects", filt or any(sel(False)(e) for e in q.events()), "files are selected by the version's table", where=R + "hash_files")
    tr = q.path_avoiding(lambda e: any(h(e) for h in heads), lambda e: h2(e) == "CONTENT", start=sel(False))
    ctx.expect("contents.only", tr is None, "unselected files are not hashed", tr or (), R + "hash_files")
    tr = q.path_avoiding(lambda e: False, lambda e: h2(e) == NO, start=sel(True))
    ctx.expect("contents.placeholder-only", tr is None, "the placeholder is hashed only when nothing was selected", tr or (), R + "hash_files")
    tr = q.path_avoiding(lambda e: sel(True)(e) or h2(e) == NO, okret)
    ctx.expect("contents.placeholder", tr is None, "the placeholder is hashed when nothing was selected", tr or (), R + "hash_files")
    # tables
    f = SGN + "nothing"
    _, rows = table(ctx, f)
    got = {}
    for fc, res, e in rows:
        for t, vs in fc.items():
            if t.op == "param":
                for v in vs:
                    got.setdefault(v, set()).add(res.a[0] if res.op == "str" else "?")
    ctx.expect("placeholders", got == {"V2": {"nothing"}, "V3": {"gnihton"}}, f"placeholders {got}", where=f)
    f = SGN + "should_hash_file"
    q, rows = table(ctx, f)
    exts = {"V2": set(), "V3": set()}
    for fc, res, e in rows:
        vs = [v for t, x in fc.items() if t.op == "param" for v in x]
        lits = lambda t: {x.a[0] for x in reaches(q.g, t, lambda y: y.op == "str")}
        strs = lits(res)
        for r in reaches(q.g, res, lambda y: y.op == "call" and y in q.g.cbret):
            for z in q.g.cbret[r]:
                strs |= lits(z)
        if res.op == "int":
            for t, x in fc.items():
                if True in x and len(x) == 1 and res.a[0]:
                    strs |= lits(t)
        for v in vs:
            if v in exts:
                exts[v] |= strs - {""}
    want = {"V2": set(V2), "V3": set(V3)}
    for v in exts:
        ctx.expect(f"extensions.{v}", exts[v] == want[v], f"{v} selects exactly {sorted(want[v])}; differs by {sorted(exts[v] ^ want[v])}", where=f)
    # signing
    q = ctx.query("hemtt_signing::private::BIPrivateKey::sign", opaque=lambda k: k == GH)
    for e in q.rets():
        if is_err(e.res):
            continue
        fs = dict(leaf_fields(e.res))
        fs = {k.split(".")[-1]: q.c(v) for k, v in fs.items()}
        for i in (1, 2, 3):
            w = f"modpow(generate_hashes(arg2, arg3, arg1.length)?.{i-1}, arg1.d, arg1.n)"
            ctx.expect(f"sign.{i}", fs.get(f"sig{i}") == w, f"signature value {i} = {w} ({fs.get(f'sig{i}', '')[:90]})", where=q.root.norm)
        ctx.expect("sign.version", fs.get("version") == "arg3", "the signature records the version it was made with", where=q.root.norm)


def is_empty_br(q, e, S):
    s, v = um(q.c(e.args[0])), e.args[1]
    first = r"(read_u8\(File\(|read\(File\()"
    if re.match(first, s):
        return v in ("Err", 0)
    m = re.match(r"(Not\()?\(discr\(" + first, s)
    if m:
        eq0 = " Eq 0)" in s
        isok = eq0 != bool(m.group(1))
        return v is (not isok)
    if re.search(re.escape(S) + r"\.size Eq 0|is_empty\(|headers\[\*\]\.size Eq 0", s):
        return v is True
    if re.search(re.escape(S) + r"\.size (Ne|Gt) 0", s):
        return v is False
    return False


def is_missing_br(q, e):
    return e.args[1] == "None" and re.search(r"next\(arg1\.headers\)$", um(q.c(e.args[0]))) is not None
