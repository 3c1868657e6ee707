"""Opened PBOs: entry boundaries."""
from rules import *
from wire import *

META = dict(
    title="Reading a PBO entry never crosses its boundaries",
    statement="The content read for an entry of an opened PBO starts at the end of the header block plus the sizes of the entries stored before it, and at most the entry's recorded size is ever read, whatever buffer sizes the caller uses. The offset reported for an entry is that same position, and opening fails if any byte follows the trailing checksum.",
    over=["inputs", "histories"],
    forall="all archives and all sequences of reads with any buffer size",
    why="tests read whole small files through one buffer size; boundary arithmetic and trailing data are not varied",
    files=["libs/pbo/src/read.rs", "libs/pbo/src/file.rs"],
    mech=[("ReadablePbo::from/file/file_offset", "libs/pbo/src/read.rs"), ("bounded entry reader", "libs/pbo/src/file.rs")],
    technique="symbolic-position dataflow (provenance of offsets and lengths) and seek/read sequence languages over MIR paths",
    note="Positions are compared as sets of summed terms; seeks and reads assumed to behave as documented.",
)

R = "hemtt_pbo::read::ReadablePbo::"


def leaves(q, t):
    """terms summed up in t (through loops and widening casts)"""
    out = set()
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == "phi":
            st.extend(q.g.phi.get(x, ()))
        elif x.op == "bin" and x.a[0] in ("Add", "AddUnchecked"):
            st.extend(x.a[1:3])
        elif x.op == "cast" and not q.c(x).startswith("trunc"):
            st.append(x.a[1])
        elif x.op == "pure" and x.a[0].endswith("Iterator::sum"):
            st.append(x.a[1][0])
        else:
            out.add(x)
    return out


def run(ctx):
    ctx.load(["hemtt_pbo", "hemtt_common"])
    ctx.rule("offset terms = header-block length + preceding sizes; every read of the archive through an entry goes into a slice bounded by min(recorded size - already read, buffer length) and advances the counter by the bytes read; the opener consumes headers, sizes, NUL, checksum and then rejects further data")
    okret = lambda e: e.kind == "ret" and not is_err(e.res)
    # --- opening
    op = lambda k: k.endswith(("::read_pbo", "ReadExt>::read_cstring"))
    q = ctx.query(R + "from", opaque=op)

    def lab(e):
        if e.kind != "call":
            return None
        if e.name.endswith("ReadPbo::read_pbo"):
            return "checksum" if "Checksum" in e.rty else "header"
        k = read_kind(e)
        if k == "cstr":
            return "cstr"
        if k == "seek":
            s = q.c(e.args[1]) if len(e.args) > 1 else "0"
            s = re.sub(r"read_pbo\(.*?\)\?\.0\.size", "SIZE", s).replace("mut(arg1)", "in")
            if re.search(r"Current\(((checked|trunc<u64->i64>|as<u64->i64>)\()?(sum|fold)\(", s) and "SIZE" in s:
                return "seek:SUM"
            return "seek:" + s
        return k

    tail = alt(star("seek:SeekFrom::Current(SIZE)"), "seek:SUM")
    if not any(lab(e) == "seek:SUM" for e in q.events()):
        tail = tail[1]
    elif not any(lab(e) == "seek:SeekFrom::Current(SIZE)" for e in q.events()):
        tail = tail[2]
    probe = [l for l in {lab(e) for e in q.events()} if l and l not in ("header", "checksum", "cstr") and not l.startswith("seek:")]
    ctx.expect("open-probe", len(probe) == 1, f"the opener probes for data after the checksum ({probe})", where=q.root.norm)
    check_language(ctx, "open-sequence", q, lab, seq("header", star(alt("header", seq("cstr", star("cstr", "cstr"), "header"))), tail, "seek:SeekFrom::Current(1)", "checksum", *(probe[:1])), "sequence of reads when opening")
    pe = [e for e in q.events() if probe and lab(e) == probe[0]]
    good = lambda e: e.kind == "br" and pe and (e.args[0] in [x.res for x in pe] and e.args[1] == "Ok" or q.c(e.args[0]).startswith("(discr(read_") and "Eq 0" in q.c(e.args[0]) and e.args[1] is True)
    if any(good(e) for e in q.events()):
        tr = q.path_avoiding(lambda e: False, okret, start=good)
        ctx.expect("open-trailing", tr is None, "opening fails when a byte follows the checksum", tr or (), q.root.norm)
    else:
        rej = [e for e in q.rets() if is_err(e.res) and "UnexpectedData" in q.c(e.res)]
        ctx.expect("open-trailing", bool(rej), "opening fails when a byte follows the checksum", where=q.root.norm)
    for e in q.rets():
        if is_err(e.res):
            continue
        f = dict(leaf_fields(e.res.a[3][0]))
        lv = leaves(q, f["blob_start"])
        hd = [x for x in lv if "read_pbo" in q.c(x)]
        cs = [x for x in lv if q.c(x).startswith("len(read_cstring")]
        ones = [x for x in lv if x.op == "int"]
        sites = {x.res.a[2] for x in q.events() if lab(x) == "cstr" and x.res.op == "call"}
        ctx.expect("open-start.header", any(q.c(x).endswith("?.1") for x in hd), "the data offset counts every header's length", where=q.root.norm)
        ctx.expect("open-start.props", len(cs) == len(sites) and sorted(x.a[0] for x in ones) == [0, 1] and len(lv) == len(hd) + len(cs) + len(ones), f"the data offset counts every property string and its NUL ({[q.c(x)[:40] for x in lv]})", where=q.root.norm)
        ctx.expect("open-fields", "read_pbo" in q.c(f["headers"]) and "read_pbo" in q.c(f["checksum"]), "headers and checksum are what was read", where=q.root.norm)
    # every header contributes to the skip over the data
    r, why = every_iteration(q, lambda e: lab(e) == "seek:SeekFrom::Current(SIZE)", None, okret) if tail != "seek:SUM" else (True, "")
    ctx.expect("open-skip", r, "the opener skips the data of every entry", why[0][2] if not r and why else (), q.root.norm)
    # --- locating an entry
    q = ctx.query(R + "file")

    def lab(e):
        k = read_kind(e)
        if k is None:
            return None
        if k == "seek":
            return "seek:" + (q.c(e.args[1]) if len(e.args) > 1 else "0")
        return k

    sk = [e for e in q.events() if lab(e)]
    one = [e for e in sk if e.args[1].op == "agg" and e.args[1].a[1] == "Start"]
    step = lambda e: e.kind == "br" and "arg1.headers[*]" in q.c(e.args[0]) and e.args[1] in (True, 1) and "eq" in q.c(e.args[0])
    if any(lab(e).startswith("seek:SeekFrom::Current") for e in sk):
        check_language(ctx, "locate-sequence", q, lab, seq("seek:SeekFrom::Start(arg1.blob_start)", star("seek:SeekFrom::Current(arg1.headers[*].size)")), "seeks when an entry is located")
        r, why = every_iteration(q, lambda e: lab(e) is not None and "Current" in lab(e), None, lambda e: False)
        tr = None
        heads = [h for k, h, el, ev in loop_heads(q) if el == "arg1.headers[*]"]
        for h in heads:
            tr = tr or q.path_avoiding(lambda e: lab(e) is not None and "Current" in lab(e), h, start=h)
        ctx.expect("locate-skip", heads and tr is None, "every entry before the one wanted is skipped by its size", tr or (), q.root.norm)
    else:
        for e in one:
            lv = sorted(q.c(x) for x in leaves(q, e.args[1].a[3][0]))
            ctx.expect("locate-position", lv in (["arg1.blob_start", "arg1.headers[*].size"],) or any("file_offset" in x for x in lv), f"entry position is data start + preceding sizes ({lv})", where=q.root.norm)
        ctx.expect("locate-seek", len(one) >= 1, "the archive is positioned at the entry", where=q.root.norm)
    files = [e for e in q.rets() if "File(" in q.c(e.res)]
    ctx.expect("locate-bound", files and all("size:arg1.headers[*].size" in q.c(e.res) and "read:0" in q.c(e.res) for e in files), "the entry reader is bounded by that header's size", where=q.root.norm)
    # --- reported offset
    q = ctx.query(R + "file_offset")
    for e in q.rets():
        t = e.res
        if is_err(t):
            continue
        while t.op == "agg" and t.a[3] and t.a[1] in ("Ok", "Some"):
            t = t.a[3][0]
        if t.op == "agg":
            continue
        lv = sorted(q.c(x) for x in leaves(q, t))
        ctx.expect("offset", lv == ["arg1.blob_start", "arg1.headers[*].size"], f"reported offset is data start + preceding sizes ({lv})", where=q.root.norm)
    # --- bounded reads
    q = ctx.query(ctx.p.find_impl("Read", "file::File", "read"))
    rd = [e for e in q.events() if e.kind == "call" and read_kind(e)]
    ctx.expect("bounded.reads", len({e.res.a[2] for e in rd}) >= 1, f"{len(rd)} read(s) of the archive analysed", where=q.root.norm)
    for e in rd:
        s = q.c(e.args[1])
        ok = re.search(r"RangeTo\(end:(.*)\)", s) or re.search(r"Range\(start:0, end:(.*)\)", s)
        b = ok.group(1) if ok else ""
        ctx.expect("bounded.slice", ok and re.fullmatch(r"\(?min\((\(arg1\.size Sub arg1\.read\), len\(arg2\)|len\(arg2\), \(arg1\.size Sub arg1\.read\))\)+", b) is not None, f"the archive is read into at most min(size - read, buffer) bytes ({s[:140]})", where=e.where())
    for e in q.rets():
        if is_err(e.res):
            continue
        s = q.c(e.raw[1]) if e.raw and 1 in e.raw else ""
        ctx.expect("bounded.advance", re.search(r"read:=\((arg1\.read Add (trunc<usize->u32>\()?read\(|(trunc<usize->u32>\()?read\(.* Add arg1\.read)", s), f"the counter advances by the bytes read ({s[:120]})", where=q.root.norm)
