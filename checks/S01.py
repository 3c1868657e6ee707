"""Key and signature file layouts."""
from rules import *
from wire import *

META = dict(
    title="Key and signature file layouts are exact and round-trip",
    statement="Private keys, public keys and signatures are written in the game's binary layouts: NUL-terminated authority, length word, key blob header, bit length, exponent, then every number as a little-endian block of exactly the size derived from the bit length, the signature's three values and its version in their defined places. Reading consumes the same layout and returns each value in the field it was written from, a length word inconsistent with the bit length or an unknown version is rejected with an error.",
    over=["inputs"],
    forall="all keys and signatures of any length and all byte sequences offered to the readers",
    why="the tests cover fixtures of one key size whose numbers have no leading zero bytes; swapped fields of equal width pass a round trip",
    files=["libs/signing/src/private.rs", "libs/signing/src/public.rs", "libs/signing/src/signature.rs", "libs/signing/src/lib.rs", "libs/common/src/sign_version.rs"],
    mech=[("private key read/write", "libs/signing/src/private.rs"), ("public key read/write", "libs/signing/src/public.rs"), ("signature read/write", "libs/signing/src/signature.rs"), ("fixed-width big integers", "libs/signing/src/lib.rs")],
    technique="automata-based wire-format analysis over inlined MIR (language equality of emitted/consumed fields, read-to-field provenance)",
    note="All paths; BigUint byte conversions assumed correct.",
)

PRIV = "hemtt_signing::private::BIPrivateKey::"
PUB = "hemtt_signing::public::BIPublicKey::"
SIG = "hemtt_signing::signature::BISign::"
L8, L16 = "(arg1.length Div 8)", "(arg1.length Div 16)"


ROP = lambda k: k.endswith("ReadExt>::read_cstring")
RSPLIT = lambda t: t.op == "fld" and t.a[0].op == "call" and "read_u32" in t.a[0].a[0]


def big(f, n):
    return f"bytes:pad(to_bytes_le(arg1.{f}), {n}, 0)"


def prop_len(q, t, fm):
    """canonical text of a length term with the reads replaced by the field they fill"""
    if t.op == "cast":
        return prop_len(q, t.a[1], fm)
    if t.op == "bin":
        return f"({prop_len(q, t.a[1], fm)} {t.a[0]} {prop_len(q, t.a[2], fm)})"
    if t.op == "fld" and t.a[0] in fm:
        return fm[t.a[0]]
    if t.op == "fld" and t.a[0].op == "call":
        return "?"
    return q.c(t)


def shifts(s):
    return s.replace("Shr 3", "Div 8").replace("Shr 4", "Div 16")


def run(ctx):
    ctx.load(["hemtt_signing", "hemtt_pbo", "hemtt_common"])
    ctx.rule("language of bytes written = the format; language of reads = the format with every read flowing into its own field and every block length derived from the bit length; success only when the length word equals the format's formula")
    head = lambda word, magic, rsa: seq("bytes:arg1.authority", "b'\\x00'", word, "b'" + magic + "'", "b'" + rsa + "'", "u32le:arg1.length", big("exponent", 4), big("n", L8))
    M6, M7 = "\\x06\\x02\\x00\\x00\\x00$\\x00\\x00", "\\x07\\x02\\x00\\x00\\x00$\\x00\\x00"
    pubw, privw = f"u32le:({L8} Add 20)", f"u32le:(({L16} Mul 9) Add 20)"
    out = lambda q: lambda t: q.c(obj(t, q.g)) == "arg2"

    def wl(q):
        def f(e):
            l = write_label(q, e, out(q))
            return l and shifts(l)
        return f

    q = ctx.query(PRIV + "write_danger")
    check_language(ctx, "private-write", q, wl(q), seq(head(privw, M7, "RSA2"), *[big(f, L16) for f in ("p", "q", "dp", "dq", "qinv")], big("d", L8)), "private key layout written")
    q = ctx.query(PUB + "write")
    check_language(ctx, "public-write", q, wl(q), head(pubw, M6, "RSA1"), "public key layout written")
    vop = lambda k: k.endswith("for u32>::from") or "From<hemtt_common::sign_version::BISignVersion>" in k
    q = ctx.query(SIG + "write", opaque=vop)
    blk = lambda f: seq(f"u32le:{L8}", big(f, L8))

    def wls(e):
        l = wl(q)(e)
        return "u32le:version" if l and l.startswith("u32le:") and "arg1.version" in l and "length" not in l else l

    check_language(ctx, "signature-write", q, wls, seq(head(pubw, M6, "RSA1"), blk("sig1"), "u32le:version", blk("sig2"), blk("sig3")), "signature layout written")
    # version codes
    f = ctx.p.find_impl("From", "u32", "from")
    _, rows = table(ctx, f)
    got = {}
    for fc, res, e in rows:
        for t, vs in fc.items():
            if t.op == "param":
                for v in vs:
                    got[v] = res.a[0] if res.op == "int" else None
    ctx.expect("version-codes", got == {"V2": 2, "V3": 3}, f"version words written: {got}", where=f.norm)

    def reader(root, key, order, formula):
        q = ctx.query(root, opaque=ROP, split_facts=RSPLIT)
        rets = [e for e in q.rets() if not is_err(e.res)]
        fm = {}
        for k, v in field_of_reads(q, rets).items():
            # the version word selects, it does not flow: handled below
            fm[k] = "/".join(sorted(x.split(".")[-1] for x in v))
        vread = None
        for e in q.events():
            if e.kind == "br" and e.raw == "int" and e.args[0].op == "fld":
                vread = e.args[0].a[0]

        def lab(e):
            k = read_kind(e)
            if k is None:
                return None
            if e.res is vread:
                return k + ":version"
            f = fm.get(e.res, "?")
            if k == "exact":
                b = obj(e.args[1], q.g)
                n = "?"
                if b.op in ("call", "pure") and b.a[0].endswith("from_elem"):
                    n = shifts(prop_len(q, b.a[1][1], fm))
                elif b.op == "rep":
                    n = str(b.a[1])
                return f"exact:{f}:{n}"
            return f"{k}:{f}"

        check_language(ctx, key, q, lab, order, "layout consumed, field by field")
        # the length word
        words = [e for e in q.events() if e.kind == "br" and e.args[0].op == "bin" and "length" in prop_len(q, e.args[0], fm)]
        forms = {shifts(prop_len(q, e.args[0], fm)) for e in words}
        good = lambda e: e in words and shifts(prop_len(q, e.args[0], fm)) in (f"(? Ne {formula})", f"({formula} Ne ?)") and e.args[1] in (False, 0) or (e in words and shifts(prop_len(q, e.args[0], fm)) in (f"(? Eq {formula})", f"({formula} Eq ?)") and e.args[1] in (True, 1))
        tr = q.path_avoiding(good, lambda e: e.kind == "ret" and not is_err(e.res))
        ctx.expect(key + ".length-word", tr is None, f"success requires the length word to be {formula} (seen {sorted(forms)})", tr or (), root)
        # numbers are little-endian conversions of the bytes read
        for e in rets:
            for path, v in leaf_fields(e.res):
                s = q.c(v)
                n = path.split(".")[-1]
                if n in ("n", "p", "q", "dp", "dq", "qinv", "d", "sig1", "sig2", "sig3", "exponent"):
                    ctx.expect(f"{key}.value.{n}", re.match(r"from_bytes_le\(read_exact!1\(|(BigUint::new|BigUint::from|BigUint::from_slice)\(\[?(list\[)?read_u32\(|read_u32\(", s), f"{n} is the little-endian number read ({s[:80]})", where=root)
        return q, rets, vread

    RB = lambda f, n: f"exact:{f}:{n}"
    R8, R16 = "(length Div 8)", "(length Div 16)"
    skip = ("u32le:?",) * 4
    for root, key, order, formula in (
        (PRIV + "read", "private-read", lambda x: seq("cstr:authority", *skip, "u32le:length", x, RB("n", R8), *[RB(f, R16) for f in ("p", "q", "dp", "dq", "qinv")], RB("d", R8)), "(((length Div 16) Mul 9) Add 20)"),
        (PUB + "read", "public-read", lambda x: seq("cstr:authority", *skip, "u32le:length", x, RB("n", R8)), "((length Div 8) Add 20)"),
        (SIG + "read", "signature-read", lambda x: seq("cstr:authority", *skip, "u32le:length", x, RB("n", R8), "u32le:?", RB("sig1", R8), "u32le:version", "u32le:?", RB("sig2", R8), "u32le:?", RB("sig3", R8)), "((length Div 8) Add 20)"),
    ):
        pq = ctx.query(root, opaque=ROP, split_facts=RSPLIT)
        exact4 = any(e.kind == "call" and read_kind(e) == "exact" and (lambda b: b.op in ("call", "pure") and b.a[0].endswith("from_elem") and b.a[1][1].op == "int" and b.a[1][1].a[0] == 4)(obj(e.args[1], pq.g)) for e in pq.events())
        q, rets, vread = reader(root, key, order("exact:exponent:4" if exact4 else "u32le:exponent"), formula)
        if key == "signature-read":
            got = {}
            for e in rets:
                v = dict(leaf_fields(e.res)).get("0.version")
                for t, vs in e.targs.items():
                    if t.op == "fld" and t.a[0] is vread:
                        for x in vs:
                            got.setdefault(x, set()).add(v.a[1] if v is not None and v.op == "agg" else "?")
            ctx.expect("signature-read.versions", got == {2: {"V2"}, 3: {"V3"}}, f"version words accepted: {got}", where=root)
