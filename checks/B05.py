"""Adding files to a PBO: names and sizes."""
from rules import *
from wire import *

META = dict(
    title="Files added to a PBO keep a normalised name and their true size",
    statement="A file added to a PBO is stored under its name with every forward slash turned into a backslash, with that same name in its header, and its recorded size and original size are the input's actual length. An input too long for a 32-bit size is rejected, never recorded with a truncated size, and looking a file up by a name with forward slashes finds the same file.",
    over=["inputs"],
    forall="all names and all input lengths, including those above 32 bits",
    why="no test can afford a 4 GiB input and the names used in tests are few",
    files=["libs/pbo/src/write.rs", "libs/pbo/src/read.rs"],
    mech=[("WritablePbo::add_file / file", "libs/pbo/src/write.rs"), ("ReadablePbo::file / header", "libs/pbo/src/read.rs")],
    technique="value provenance of the stored header plus dominance of the narrowing conversion by a range check over MIR paths",
    note="All paths of add/lookup functions.",
)

W = "hemtt_pbo::write::WritablePbo::"
R = "hemtt_pbo::read::ReadablePbo::"
NORM = r'replace\((?:\w+\()?arg2\)?, (47|"/"), ("\\\\"|92)\)'


def guard(q, x):
    """br events establishing that value text x fits 32 bits"""
    big = ("4294967295",)

    def f(e):
        if e.kind != "br" or e.args[0].op != "bin":
            return False
        o, a, b = e.args[0].a[0], q.c(e.args[0].a[1]), q.c(e.args[0].a[2])
        v = e.args[1] in (True, 1)
        if a == x and b == "4294967295":
            return (o == "Gt" and not v) or (o == "Le" and v)
        if b == x and a == "4294967295":
            return (o == "Lt" and not v) or (o == "Ge" and v)
        if a == x and b == "4294967296":
            return (o == "Ge" and not v) or (o == "Lt" and v)
        return False

    return f


def run(ctx):
    ctx.load(["hemtt_pbo", "hemtt_common"])
    ctx.rule("the inserted key and header name are the normalised name; the header's size and original are the stream length; a narrowing to 32 bits happens only on paths that established it fits; lookups normalise the same way")
    q = ctx.query(W + "add_file")
    ins = [e for e in q.events() if e.kind == "call" and re.search(r"Map::insert(_full)?$", e.name)]
    ctx.expect("add.insert", len(ins) >= 1, "the file is registered", where=q.root.norm)
    for e in ins:
        key = q.c(e.args[1])
        ctx.expect("add.key", re.fullmatch(NORM, key), f"registered under the normalised name ({key[:80]})", where=e.where())
        h = [v for v in leaf_fields(e.args[2]) if v[0].split(".")[-1] in ("filename", "size", "original", "mime", "reserved", "timestamp")]
        f = {k.split(".")[-1]: v for k, v in h}
        ctx.expect("add.header", {"filename", "size", "original"} <= set(f), f"the stored header is built here ({sorted(f)})", where=e.where())
        if "filename" not in f:
            continue
        ctx.expect("add.name", re.fullmatch(NORM, q.c(f["filename"])), f"the header's name is the normalised name ({q.c(f['filename'])[:80]})", where=e.where())
        for n in ("size", "original"):
            s = q.c(f[n])
            m = re.fullmatch(r"(?:(trunc<u64->u32>|checked)\()?(seek\(arg3, SeekFrom::End\(0\)\)\??(?:\.0@Ok)?|stream_len\(arg3\)\?)\)?\??", s)
            ctx.expect(f"add.{n}", m, f"the header's {n} is the input's length ({s[:100]})", where=e.where())
            if m and m.group(1) == "trunc<u64->u32>":
                g = guard(q, m.group(2))
                tr = q.path_avoiding(g, lambda x, e=e: x is e)
                ctx.expect(f"add.{n}.guard", tr is None, "a length that does not fit 32 bits never reaches the header", tr or (), e.where())
        for n in ("reserved", "timestamp"):
            if n in f:
                ctx.expect(f"add.{n}", q.c(f[n]) == "0", f"{n} is zero", where=e.where())
        tr = q.path_avoiding(lambda x: x in ins, lambda x: x.kind == "ret" and not is_err(x.res))
        ctx.expect("add.always", tr is None, "success means the file was registered", tr or (), q.root.norm)
    # lookups
    q = ctx.query(W + "file")
    gets = [e for e in q.events() if e.kind == "call" and re.search(r"Map::(get|get_mut|get_key_value)$", e.name)]
    ctx.expect("lookup.write", gets and all(re.fullmatch(NORM, q.c(e.args[1])) for e in gets), f"lookup while building normalises the name ({[q.c(e.args[1])[:60] for e in gets]})", where=q.root.norm)
    for fn in ("file", "file_offset", "header"):
        q = ctx.query(R + fn)
        eqs = [e.args[0] for e in q.events() if e.kind == "br"] + [x for rs in q.g.cbret.values() for x in rs]
        eqs = {q.c(t) for t in eqs if t.op == "pure" and t.a[0] in ("eq", "ne") or (t.op in ("call", "pure") and t.a[0].endswith("eq_ignore_ascii_case"))}
        eqs = {s for s in eqs if "arg1.headers[*]" in s}
        ok = any(re.search(NORM, s) and re.search(r'replace\((to_lowercase\()?arg1\.headers\[\*\](#0)?\.filename', s) for s in eqs)
        ctx.expect(f"lookup.{fn}", ok, f"lookup in an opened PBO normalises both names ({sorted(eqs)[:2]})", where=q.root.norm)
        if fn != "header":
            ctx.expect(f"lookup.{fn}.case", any(s.count("to_lowercase") == 2 or "eq_ignore" in s or s.count("to_ascii_lowercase") == 2 for s in eqs), "lookup ignores case", where=q.root.norm)
