"""PBO header block: content and deterministic order, written and recomputed."""
from rules import *
from wire import *

META = dict(
    title="PBO header block is complete and deterministically ordered",
    statement="When properties are requested the header block starts with the version header, then the prefix property first if there is one, every other property exactly once, and one terminating NUL; when they are not requested none of that is present. Then one header per file in ascending order of lower-cased name, whatever order the files were added in, and one all-zero terminating header. Recomputing the checksum of an opened PBO rebuilds exactly that block from what was read, followed by the file contents in the same order.",
    over=["inputs", "histories"],
    forall="all property maps and file sets, in every insertion order",
    why="file order comes from a hash map whose order changes from run to run, and the no-properties form and prefix-not-first insertion order are not sampled by tests",
    files=["libs/pbo/src/write.rs", "libs/pbo/src/read.rs"],
    mech=[("WritablePbo::write header block", "libs/pbo/src/write.rs"), ("ReadablePbo::gen_checksum", "libs/pbo/src/read.rs")],
    technique="automata-based output-language analysis of inlined MIR plus must-pass path queries and sort-key extraction",
    note="All paths; IndexMap iteration visits every entry once (library contract).",
)

W = "hemtt_pbo::write::WritablePbo::write"
G = "hemtt_pbo::read::ReadablePbo::gen_checksum"


def hdr(src=None, const=None):
    if src:
        return seq(f"bytes:{src}.filename", "b'\\x00'", f"u32le:as_u32({src}.mime)", f"u32le:{src}.original", f"u32le:{src}.reserved", f"u32le:{src}.timestamp", f"u32le:{src}.size")
    return seq("b''", "b'\\x00'", f"u32le:as_u32(Mime::{const})", *["u32le:0"] * 4)


def block(ctx, q, root, versh, S, present, pre):
    okret = lambda e: e.kind == "ret" and not is_err(e.res)

    def lab(e):
        s = io_sink(q, e)
        if s is not None and s[0] == "W" and membuf(q, s[1]) is not None:
            return write_label(q, e)
        return None

    def lab2(e):
        l = lab(e)
        return l and re.sub(r'filtered<(ne\(_\.0, "prefix"\)|ne\("prefix", _\.0\))>\(arg1\.properties\[\*\]\)', "arg1.properties[*]", l)

    spec = seq(
        alt(seq(versh, opt("b'prefix'", "b'\\x00'", 'bytes:get(arg1.properties, "prefix")?', "b'\\x00'"), star("bytes:arg1.properties[*].0", "b'\\x00'", "bytes:arg1.properties[*].1", "b'\\x00'"), "b'\\x00'"), seq()),
        star(hdr(S)),
        hdr(const="Blank"),
    )
    check_language(ctx, pre + "-block", q, lab2, spec, "header block content")
    first = lambda e: lab2(e) == ("u32le:as_u32(Mime::Vers)" if present[0][0] == "arg3" else "u32le:as_u32(arg1.vers_header?.mime)")
    # present exactly when wanted
    yes, no = present
    br = lambda v, vals: lambda e: e.kind == "br" and q.c(e.args[0]) == v and e.args[1] in vals
    tr = q.path_avoiding(first, okret, start=br(*yes))
    ctx.expect(pre + "-present", tr is None, "the version header and properties are present whenever they should be", tr or (), root)
    tr = q.path_avoiding(lambda e: False, first, start=br(*no))
    ctx.expect(pre + "-absent", tr is None, "they are absent otherwise", tr or (), root)
    pw = lambda e: lab2(e) == "b'prefix'"
    got = 'get(arg1.properties, "prefix")'
    tr = q.path_avoiding(pw, okret, start=lambda e: e.kind == "br" and q.c(e.args[0]) == got and e.args[1] == "Some")
    ctx.expect(pre + "-prefix", tr is None, "the prefix property is written when it exists", tr or (), root)
    # every property except the prefix, once
    kw = lambda e: lab2(e) == "bytes:arg1.properties[*].0"
    isp = lambda v: lambda e: e.kind == "br" and e.args[1] is v and q.c(e.args[0]) in ('eq(arg1.properties[*].0, "prefix")', 'eq("prefix", arg1.properties[*].0)') or (e.kind == "br" and e.args[1] is (not v) and q.c(e.args[0]) in ('ne(arg1.properties[*].0, "prefix")', 'ne("prefix", arg1.properties[*].0)'))
    elem = lambda el: re.fullmatch(r'(filtered<(ne\(_\.0, "prefix"\)|ne\("prefix", _\.0\))>\()?arg1\.properties\[\*\]\)?', el)
    r, why = every_iteration(q, lambda e: kw(e) or isp(True)(e), elem, okret)
    ctx.expect(pre + "-all-properties", r, "every property other than the prefix is written", why[0][2] if not r and why else (), root)
    heads = [h for k, h, el, ev in loop_heads(q) if elem(el)]
    anyhead = lambda e: any(h(e) for h in heads)
    tr = q.path_avoiding(anyhead, kw, start=isp(True))
    ctx.expect(pre + "-prefix-once", tr is None and (any(isp(True)(e) for e in q.events()) or any("filtered<" in el for k, h, el, ev in loop_heads(q))), "the prefix property is not written again among the others", tr or (), root)
    # every header
    fw = lambda e: lab2(e) == f"u32le:{S}.size"
    r, why = every_iteration(q, fw, lambda el: el == S, okret)
    ctx.expect(pre + "-all-headers", r, "a header is written for every file", why[0][2] if not r and why else (), root)
    return lab


def run(ctx):
    ctx.load(["hemtt_pbo", "hemtt_common"])
    ctx.rule("language of the header-block buffer = [version header, prefix first, other properties, NUL]? (sorted file headers)* terminator, with exact presence conditions; the recomputed checksum's language is the same block built from the values read")
    op = lambda k: k == "hemtt_pbo::model::mime::Mime::as_u32"
    q = ctx.query(W, opaque=op)
    S = "sorted<to_lowercase(_.filename)>:arg1.files[*].1.1"
    block(ctx, q, W, hdr(const="Vers"), S, (("arg3", (True,)), ("arg3", (False,))), "write")
    q = ctx.query(G, opaque=op)
    S = "sorted<to_lowercase(_.filename)>(arg1.headers)[*]"
    okret = lambda e: e.kind == "ret" and not is_err(e.res)
    block(ctx, q, G, hdr("arg1.vers_header?"), S, (("arg1.vers_header", ("Some",)), ("arg1.vers_header", ("None",))), "recompute")

    def lab(e):
        s = io_sink(q, e)
        if s is None:
            return None
        if s[0] in ("H", "C") and "Digest::new" in q.c(s[1]):
            if membuf(q, s[2]) is not None and "read_" not in q.c(s[2]):
                return "BUF"
            return "copy:" + q.c(s[2]) if s[0] == "C" else "hash:" + q.c(s[2])
        return None

    F = "copy:File(size:arg1.headers[*].size, read:0, input:arg1.input)"
    check_language(ctx, "recompute-hash", q, lab, seq("BUF", star(F)), "what is hashed when the checksum is recomputed")
    r, why = every_iteration(q, lambda e: lab(e) == F, lambda el: el == S, okret)
    ctx.expect("recompute-all-files", r, "every file's content is hashed", why[0][2] if not r and why else (), G)
    # the file hashed is the one the header names
    eqs = {q.c(e.args[0]) for e in q.events() if e.kind == "br" and e.args[0].op == "pure" and e.args[0].a[0] == "eq" and "arg1.headers[*]" in q.c(e.args[0])}
    ctx.expect("recompute-lookup", any(x.count("to_lowercase") + x.count("eq_ignore") >= 1 and S + ".filename" in x and "arg1.headers[*].filename" in x.replace(S, "") for x in eqs), f"the content is looked up by the header's own name ({sorted(eqs)[:3]})", where=G)
