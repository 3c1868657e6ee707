"""PBO header wire layout."""
from rules import *
from wire import *

META = dict(
    title="PBO file-header wire layout is exact and round-trips",
    statement="Every file header written into a PBO is the NUL-terminated filename followed by five little-endian 32-bit fields (packing tag, original size, reserved, timestamp, data size) in that order, with the packing tags the game defines. Reading a header returns each of those values in the field it was written from and reports exactly the number of bytes it consumed.",
    over=["inputs"],
    forall="all header values and all byte sequences offered to the reader",
    why="tests round-trip a few fixture files; they never vary every field, and a writer/reader pair that swaps two fields alike passes a round-trip",
    files=["libs/pbo/src/model/header.rs", "libs/pbo/src/model/mime.rs", "libs/common/src/io.rs"],
    mech=[("header writer/reader", "libs/pbo/src/model/header.rs"), ("packing tag table", "libs/pbo/src/model/mime.rs")],
    technique="automata-based wire-format analysis over inlined MIR (language equality of emitted/consumed byte fields) plus decision-table extraction",
    note="All paths of the compiled writer/reader are enumerated symbolically-free from MIR; library I/O calls assumed to behave as documented.",
)

H = "hemtt_pbo::model::header::Header"
TAGS = {"Vers": 0x56657273, "Cprs": 0x43707273, "Enco": 0x456E6372, "Blank": 0}


def run(ctx):
    p = ctx.load(["hemtt_pbo", "hemtt_common"])
    ctx.rule("every successful path of the header writer emits exactly filename NUL then u32le packing-tag, original, reserved, timestamp, size; the reader consumes the same sequence and stores each value in the same field; the tag tables are inverse bijections with the format's constants; the reported header length equals the bytes read")
    op = lambda k: k in ("hemtt_pbo::model::mime::Mime::as_u32", "hemtt_pbo::model::mime::Mime::from_u32")
    w = p.find_impl("WritePbo", H, "write_pbo")
    q = ctx.query(w, opaque=op)
    out = lambda t: q.c(obj(t, q.g)) in ("arg2",)
    spec = seq("bytes:arg1.filename", "b'\\x00'", "u32le:as_u32(arg1.mime)", "u32le:arg1.original", "u32le:arg1.reserved", "u32le:arg1.timestamp", "u32le:arg1.size")
    check_language(ctx, "write-layout", q, lambda e: write_label(q, e, out), spec, "header writer emits the header layout")
    r = p.find_impl("ReadPbo", H, "read_pbo")
    op2 = lambda k: op(k) or k.endswith("ReadExt>::read_cstring")
    q = ctx.query(r, opaque=op2)
    rets = [e for e in q.rets() if not is_err(e.res)]
    fm = field_of_reads(q, rets, lambda t: t)
    okfields = {}
    for k, v in fm.items():
        okfields[k] = "/".join(sorted(x.replace("0.0.", "") for x in v if x.startswith("0.0.")))

    def label(e):
        k = read_kind(e)
        return None if k is None else f"{k}:{okfields.get(e.res, '?')}"

    spec = seq("cstr:filename", "u32le:mime", "u32le:original", "u32le:reserved", "u32le:timestamp", "u32le:size")
    check_language(ctx, "read-layout", q, label, spec, "header reader consumes the header layout into the same fields")
    for e in rets:
        agg = e.res.a[3][0].a[3][0] if e.res.op == "agg" and e.res.a[3][0].op == "agg" else None
        if agg is None or agg.op != "agg":
            ctx.bad("read-value", "the reader's result is not a header built from what was read", where=q.root.norm)
            continue
        for n, v in zip(agg.a[2], agg.a[3]):
            s = q.c(v)
            good = {"filename": r"^read_cstring\(.*\)\?$", "mime": r"^from_u32\(read_u32\(.*\)\?\)\?$"}.get(n, r"^read_u32\(.*\)\?$")
            ctx.expect(f"read-value.{n}", re.match(good, s), f"field {n} is exactly the value read ({s[:80]})", where=q.root.norm)
        n = q.c(e.res.a[3][0].a[3][1])
        ctx.expect("read-length", norm_sum(n) in (((21,), "len(FN)"),), f"reported header length is 21 + filename length ({n[:120]})", where=q.root.norm)
    # tag tables
    _, rows = table(ctx, "hemtt_pbo::model::mime::Mime::as_u32")
    got = {}
    for f, res, e in rows:
        vs = [v for t, v in f.items() if t.op == "param"]
        for v in (next(iter(vs)) if vs else ["?"]):
            got[v] = res.a[0] if res.op == "int" else None
    ctx.expect("tags-write", got == TAGS, f"packing tags written: {got}", where="hemtt_pbo::model::mime::Mime::as_u32")
    _, rows = table(ctx, "hemtt_pbo::model::mime::Mime::from_u32")
    back = {}
    other = []
    for f, res, e in rows:
        vs = [v for t, v in f.items() if t.op == "param"]
        val = res.a[3][0].a[1] if res.op == "agg" and res.a[1] == "Some" and res.a[3][0].op == "agg" else None
        if vs:
            for v in vs[0]:
                back[v] = val
        else:
            other.append(res.a[1] if res.op == "agg" else "?")
    ctx.expect("tags-read", {v: k for k, v in TAGS.items()} == {k: v for k, v in back.items() if v} and other == ["None"], f"packing tags read: {back}, anything else: {other}", where="hemtt_pbo::model::mime::Mime::from_u32")


def norm_sum(s):
    """flatten a sum into constants and terms"""
    t = []

    def fl(x):
        x = x.strip()
        if x.startswith("(") and x.endswith(")"):
            d = 0
            for i, ch in enumerate(x):
                if ch in "([{":
                    d += 1
                elif ch in ")]}":
                    d -= 1
                elif d == 1 and x.startswith(" Add ", i):
                    fl(x[1:i])
                    fl(x[i + 5:-1])
                    return
        t.append(x)

    fl(s)
    cs = sum(int(x) for x in t if x.isdigit())
    rest = [re.sub(r"read_cstring\(.*\)\?", "FN", x) for x in t if not x.isdigit()]
    return ((cs,),) + tuple(rest)
