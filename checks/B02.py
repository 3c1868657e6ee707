"""Trailer checksum covers every byte of a written PBO."""
from rules import *
from wire import *

META = dict(
    title="A written PBO's checksum covers every byte before it, in order",
    statement="Writing a PBO emits the header block, then the complete content of every file in header order, then one NUL and the 20-byte SHA-1 of exactly the bytes before that NUL in the order they were written, whatever the number, size or insertion order of the files. The checksum handed back to the caller is that same hash, every file is read from its beginning, and success is reported only after everything has been flushed to the output.",
    over=["inputs", "histories"],
    forall="all sets of files, sizes (both sides of the threading threshold) and properties",
    why="tests write a few small fixtures: the threaded path for files above one megabyte, previously-read inputs and skipped files are never sampled",
    files=["libs/pbo/src/write.rs"],
    mech=[("WritablePbo::write", "libs/pbo/src/write.rs")],
    technique="dataflow + automata: the sequences of terms written to the output and fed to the hasher are compared over all MIR paths, with per-iteration completeness of the file loop",
    note="All paths of the writer; the standard library's Read/Write/BufWriter/Digest are assumed to do what they document.",
)

W = "hemtt_pbo::write::WritablePbo::write"


def run(ctx):
    p = ctx.load(["hemtt_pbo", "hemtt_common"])
    ctx.rule("projection of the writer onto the output = header-block, file-content*, NUL, hash; projection onto the hasher = header-block, file-content*; every iteration of the file loop writes and hashes the same bytes; flush before success")
    q = ctx.query(W)
    okret = lambda e: e.kind == "ret" and not is_err(e.res)

    def data(t):
        b = membuf(q, t)
        if b is not None:
            s = q.c(strip_view(t))
            if "read_to_end!1" in s or "read_exact!1" in s:
                return "FILE:" + s
            return f"BUF{b.a[2] if len(b.a) > 2 else ''}"
        if t.op == "call" and HASH_FIN.search(t.a[0]):
            return "SHA:" + q.c(obj(t.a[1][0], q.g))
        return tobytes(q, t)

    def lab(kind):
        def f(e):
            s = io_sink(q, e)
            if s is None:
                return None
            k, o, d = s
            if k == "W" and kind == "W" and q.c(o) == "arg2":
                return data(d)
            if k == "H" and kind == "H" and "Digest::new" in q.c(o):
                return data(d)
            if k == "C":
                return "copy:" + q.c(d)
            return None
        return f

    hw = [lab("W")(e) for e in q.events()]
    files = sorted({x for x in hw if x and x.startswith("FILE:")})
    bufs = sorted({x for x in hw if x and x.startswith("BUF")})
    ctx.expect("header-block", len(bufs) == 1, f"exactly one header block buffer is written ({bufs})", where=W)
    ctx.expect("file-data", len(files) == 1, f"one kind of file content is written ({[f[:120] for f in files]})", where=W)
    if len(bufs) != 1 or len(files) != 1:
        return
    B, F = bufs[0], files[0]
    ctx.expect("file-source", re.search(r"read_to_end!1\(.*arg1\.files.*sorted<to_lowercase\(_\.filename\)>:arg1\.files\[\*\]\.1\.1\.filename", F), "file content is read to its end from the file registered under the header's name", where=W)
    sha = sorted({x for x in hw if x and x.startswith("SHA:")})
    ctx.expect("one-hash", len(sha) == 1, f"one hash is written {sha}", where=W)
    if len(sha) != 1:
        return
    check_language(ctx, "output", q, lab("W"), seq(B, star(F), "b'\\x00'", sha[0]), "bytes written to the output")
    check_language(ctx, "hashed", q, lab("H"), seq(B, star(F)), "bytes fed to the hash")
    # the same header block state is written and hashed: nothing is appended to it between or after
    for kind, nm in (("W", "written"), ("H", "hashed")):
        is_b = lambda e, kind=kind: lab(kind)(e) == B
        appends = lambda e: (lambda s: s is not None and s[0] == "W" and membuf(q, s[1]) is not None and f"BUF{membuf(q, s[1]).a[2]}" == B)(io_sink(q, e))
        tr = q.path_avoiding(lambda e: False, lambda e: appends(e), start=is_b)
        ctx.expect(f"header-complete-{nm}", tr is None, f"the header block is complete when it is {nm}", tr or (), W)
    elem = lambda el: el.startswith("sorted<to_lowercase(_.filename)>:arg1.files")
    for kind, nm in (("W", "written"), ("H", "hashed")):
        empty = lambda e: e.kind == "br" and e.args[1] is True and q.c(e.args[0]) == "is_empty(" + F[5:] + ")"
        r, why = every_iteration(q, lambda e, kind=kind: lab(kind)(e) == F or empty(e), elem, okret)
        ctx.expect(f"every-file-{nm}", r, f"every file is {nm} on every iteration", why[0][2] if not r and why else (), W)
    # rewound before it is read
    rd = lambda e: e.kind == "call" and re.search(r"Read::read_to_end$", e.name)
    rew = lambda e: e.kind == "call" and (e.name.endswith("Seek::rewind") or (e.name.endswith("Seek::seek") and e.args[1].op == "agg" and e.args[1].a[1] == "Start" and e.args[1].a[3][0].op == "int" and e.args[1].a[3][0].a[0] == 0))
    nx = [h for k, h, el, ev in loop_heads(q) if elem(el)]
    tr = q.path_avoiding(rew, rd, start=lambda e: any(h(e) for h in nx))
    ctx.expect("rewound", tr is None, "every input is rewound before it is read", tr or (), W)
    # returned checksum
    for e in q.rets():
        if is_err(e.res):
            continue
        s = q.c(e.res)
        ctx.expect("returned-hash", "finalize(" in s and "Digest::new" in s, f"the returned checksum is the hash ({s[:80]})", where=W)
    # flush
    wrapped = lambda e: lab("W")(e) is not None and buffered(q, e.args[0])
    fl = lambda e: e.kind == "call" and re.search(r"Write::flush$|BufWriter::into_inner$", e.name)
    tr = q.path_avoiding(fl, okret, start=wrapped)
    ctx.expect("flushed", tr is None, "buffered output is flushed before success is reported", tr or (), W)

