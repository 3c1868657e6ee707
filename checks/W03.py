"""Discovery and layers of a workspace."""
from rules import *
from lin import *
from coll import *
from logic import *
from C03 import rets

META = dict(
    title="Discovery finds every addon, mission and prefix of the project",
    statement="Every config.cpp and mission.sqm under include, optionals and addons (whatever its case) is found, and every prefix file maps its prefix, in lower case and with slashes, to the folder it lies in; paths in .hemtt are left out, and a prefix that is invalid or used twice is an error. A later layer of the workspace hides the files of an earlier one, a file counts as included exactly when an include layer has it, and files are read without carriage returns. The P drive is searched only when the project requires it, and a prefix file is either one line or a list with a prefix key, without leading backslash and without slashes.",
    over=["inputs", "environment"],
    forall="all directory trees, all contents of prefix files, all layers",
    why="the fixtures are small projects with well-formed prefixes; a folder left out goes missing only in projects laid out differently",
    files=["libs/workspace/src/lib.rs", "libs/workspace/src/path.rs", "libs/common/src/prefix.rs"],
    mech=[("Workspace::discover", "libs/workspace/src/lib.rs"), ("WorkspaceBuilder::finish", "libs/workspace/src/lib.rs"), ("Prefix::new", "libs/common/src/prefix.rs")],
    technique="path and dataflow queries over the MIR event graph of discovery (each entry is recorded, rejected or left out for the stated reason), decision table of the prefix file parser",
    note="The walk of the virtual filesystem is taken to list every entry.",
)

W = "hemtt_workspace::"
OPQ = lambda k: bool(re.search(r"Prefix::new$|pdrive::search$|Workspace::discover$", k))
ROOTS = ("include", "optionals", "addons")
FILES = ("$pboprefix$", "$pboprefix$.txt", "pboprefix.txt", "$prefix$")


def low(x):
    return rf"to_(?:ascii_)?lowercase\((?:{x})\)"


def discovery(ctx):
    p = ctx.p
    f = p.find(W + "Workspace::discover")
    q0 = ctx.query(f, opaque=lambda k: bool(re.search(r"Prefix::new$", k)))
    q0.limit = None
    ctx.rule("every entry of the walk is recorded, rejected or left out for the stated reason, under every root")
    good = lambda e: e.kind == "ret" and not (Sizes(q0).follow(e.res).op == "agg" and Sizes(q0).follow(e.res).a[1] == "Err")
    evs = list(q0.events())
    txt = {}

    def c(t):
        r = txt.get(t)
        if r is None:
            r = txt[t] = q0.c(t)
        return r

    VF = r"(?:arg1|\{.*arg1.*\}|mut\(arg1.*\))\.vfs"
    def at(e):
        r = ats.get(e)
        if r is None:
            s, v = atom(q0, e)
            r = ats[e] = (s, str(v))
        return r

    ats = {}
    for root in ROOTS + ("*",):
        R = rf'join\({VF}, "{root}"\)\?' if root != "*" else rf"join\({VF}, \[(?:\"(?:{'|'.join(ROOTS)})\"(?:, )?){{3}}\]\[\*\]\)\?"
        WALK = rf"walk_dir\({R}\)\?"
        EL = rf"{WALK}\[\*\](?:\?|\.0@Ok)"
        NAME = low(rf"filename\({EL}\)")
        nx = lambda e: e.kind == "call" and e.name.endswith("Iterator::next") and re.fullmatch(WALK, c(e.args[0])) is not None
        has = any(nx(e) for e in evs)
        if root == "*" or not has:
            if root != "*":
                # the roots may be walked by one loop over a list of them
                Q = rf"join\({VF}, \[\"include\", \"optionals\", \"addons\"\]\[\*\]\)\?"
                ctx.expect(f"root.{root}", any(e.kind == "call" and e.name.endswith("walk_dir") and '"%s"' % root in c(e.args[0]) for e in evs), f"{root} is walked", where=f.norm)
            if not has:
                continue
        def br(rx, v):
            R_ = re.compile(rx)
            return lambda e: e.kind == "br" and at(e)[1] == v and R_.fullmatch(at(e)[0]) is not None

        def eqn(name, v):
            return br(rf'eq\((?:as_str\()?{NAME}\)?, "{re.escape(name)}"\)|eq_ignore_ascii_case\(filename\({EL}\), "{re.escape(name)}"\)', v)
        some = br(rf"next\({WALK}\)", "Some")
        none = br(rf"next\({WALK}\)", "None")
        missing = br(rf"exists\({R}\)\?", "False")
        bad = br(rf"{WALK}\[\*\]", "Err")
        hidden = br(rf'contains\(as_str\({EL}\), "\.hemtt"\)', "True")
        FI = rf"contains\(\[(?:\"[^\"]*\"(?:, )?)+\], {NAME}\)"
        isfile, nofile = br(FI, "True"), br(FI, "False")
        put = lambda fld: lambda e: e.kind == "call" and e.name.endswith("::push") and re.fullmatch(rf".*\.{fld}", c(e.args[0])) is not None and re.fullmatch(EL, c(e.args[1])) is not None
        ins = lambda e: e.kind == "call" and re.search(r"HashMap<.*::insert$|HashMap::insert$|VacantEntry.*::insert$", e.name) is not None and root_of(e)

        def root_of(e):
            return re.fullmatch(rf"parent\({EL}\)|.*VfsPath::parent.*", c(e.args[-1])) is not None and re.search(rf"{R}\)\?\[\*\](?:\?|\.0@Ok)\)$", c(e.args[-1])) is not None
        end = lambda e: good(e)
        # the walk is done to its end
        tr = q0.path_avoiding(lambda e: none(e) or missing(e), end)
        ctx.expect(f"root.{root}", tr is None, f"{root} is walked to the end", tr or (), f.norm)
        # nothing is left out for another reason
        stop = lambda e: nx(e) or end(e)
        tr = q0.path_avoiding(lambda e: bad(e) or hidden(e) or nofile(e) or put("addons")(e) or put("missions")(e) or ins(e), stop, start=some)
        ctx.expect(f"skip.{root}", tr is None and any(some(e) for e in evs), "an entry is left out only when it is in .hemtt or is none of the files", tr or (), f.norm)
        for name, fld in (("config.cpp", "addons"), ("mission.sqm", "missions")):
            tr = q0.path_avoiding(put(fld), stop, start=eqn(name, "True"))
            ctx.expect(f"{fld}.{root}", tr is None and any(eqn(name, "True")(e) for e in evs), f"a {name} is one of the {fld}", tr or (), f.norm)
            tr = q0.path_avoiding(eqn(name, "True"), put(fld), start=some)
            ctx.expect(f"{fld}.only.{root}", tr is None, f"only a {name} is one of the {fld}", tr or (), f.norm)
            tr = q0.path_avoiding(nx, put(fld), start=put(fld))
            ctx.expect(f"{fld}.once.{root}", tr is None, "each once", tr or (), f.norm)
            tr = q0.path_avoiding(lambda e: hidden(e) is False and br(rf'contains\(as_str\({EL}\), "\.hemtt"\)', "False")(e), put(fld), start=some)
            ctx.expect(f"hidden.{root}", tr is None, "paths in .hemtt are left out", tr or (), f.norm)
            # no other file is tested before in a way that hides it
        for e in evs:
            if e.kind == "br" and re.fullmatch(FI, c(e.args[0])):
                lits = set(re.findall(r'"([^"]*)"', c(e.args[0]).split("], ")[0]))
                ctx.expect("prefix.files", lits == set(FILES), "the names a prefix file can have", where=e.where(), detail=str(lits))
        tr = q0.path_avoiding(ins, stop, start=isfile)
        ctx.expect(f"prefix.{root}", tr is None and any(isfile(e) for e in evs), "a prefix file adds its prefix, or is an error", tr or (), f.norm)
        KEY = None
        for e in evs:
            if not ins(e):
                continue
            vac = "VacantEntry" in e.name
            P = rf"Prefix::new\(read_to_string\({EL}\)\?\)\?"
            ok = vac or text_ok(q0, e.args[1], P)
            ctx.expect("prefix.key", ok, "the prefix in lower case, with slashes and a leading slash", where=e.where(), detail=text(q0, e.args[1])[:300])
            ctx.expect("prefix.folder", re.fullmatch(rf"parent\({EL}\)", c(e.args[-1])) is not None, "stands for the folder of the prefix file", where=e.where(), detail=c(e.args[-1])[:200])
            if vac:
                continue
            free = lambda x: x.kind == "br" and str(x.args[1]) in ("False", "None") and re.match(r"(?:contains_key|get)\(", c(x.args[0])) is not None and x.args[0].op in ("call", "pure") and same(q0, x.args[0].a[1][1], e.args[1])
            tr = q0.path_avoiding(free, ins, start=some)
            # or the insertion itself tells
            old = lambda x: x.kind == "br" and str(x.args[1]) in ("Some", "True") and re.match(r"(?:is_some\()?insert\(", c(x.args[0])) is not None
            late = any(old(x) for x in evs) and q0.path_avoiding(lambda x: False, stop, start=old) is None
            ctx.expect(f"prefix.twice.{root}", tr is None or late, "a prefix used twice is an error", tr or (), e.where())
        tr = q0.path_avoiding(nx, ins, start=ins)
        ctx.expect(f"prefix.once.{root}", tr is None, "each once", tr or (), f.norm)
    # the prefix that is taken: errors, never silently nothing
    for e in evs:
        if e.kind == "ret":
            continue


def same(q, a, b):
    return a is b or q.c(a) == q.c(b)


def text_ok(q, t, P):
    s = text(q, t)
    ok = []
    for sep in (r"92", r'"\\\\"', r'"\\\\\\\\"'):
        for sl in ("47", '"/"'):
            ok.append(rf"/«replace\(to_lowercase\(to_string\({P}\)\), {sep}, {sl}\)»")
            ok.append(rf"/«to_lowercase\(replace\(to_string\({P}\), {sep}, {sl}\)\)»")
    return any(re.fullmatch(r, s) for r in ok)


def build(ctx):
    p = ctx.p
    f = p.find(W + "Workspace::create")
    q0 = ctx.query(f, opaque=OPQ)
    ctx.rule("the workspace made: its root, its layers, discovery and the P drive")
    REQ = r"eq\(arg5, PDriveOption::Require\)|arg5"
    isreq = lambda e, v: e.kind == "br" and (re.fullmatch(r"eq\(arg5, PDriveOption::Require\)|eq\(PDriveOption::Require, arg5\)", atom(q0, e)[0]) is not None and str(atom(q0, e)[1]) == v or q0.c(e.args[0]) == "arg5" and (str(e.args[1]) == "Require") == (v == "True"))
    search = lambda e: e.kind == "call" and e.name.endswith("pdrive::search")
    ret = lambda e: e.kind == "ret" and not (e.res.op == "agg" and e.res.a[1] == "Err")
    tr = q0.path_avoiding(lambda e: isreq(e, "True"), search)
    ctx.expect("pdrive.only", tr is None, "the P drive is searched only when it is required", tr or (), f.norm)
    tr = q0.path_avoiding(search, ret, start=lambda e: isreq(e, "True"))
    ctx.expect("pdrive.required", tr is None and any(search(e) for e in q0.events()), "and searched then", tr or (), f.norm)
    disc = lambda e: e.kind == "call" and e.name.endswith("Workspace::discover")
    on = lambda v: lambda e: e.kind == "br" and q0.c(e.args[0]) == "arg4" and str(e.args[1]) == v
    tr = q0.path_avoiding(disc, ret, start=on("True"))
    ctx.expect("discover", tr is None and any(disc(e) for e in q0.events()) and q0.path_avoiding(on("True"), disc) is None, "discovery runs exactly when asked for", tr or (), f.norm)
    qe = settle(q0, [(r"(?:\w+::)?discover\(.*\)", ["Err"])])
    tr = qe.path_avoiding(lambda e: False, ret, start=disc)
    ctx.expect("discover.error", tr is None, "a workspace whose discovery fails is not made", tr or (), f.norm)
    for e in rets(q0):
        s = q0.c(e.res)
        if "Result::Ok(" not in s:
            continue
        S = Sizes(q0)
        for fld, rx in (("vfs", "arg1"), ("layers", "arg2"), ("project", "arg3"), ("pointers", r"(?:HashMap::)?(?:new|default)\(\)|HashMap\(\)"), ("addons", r"list\[\]"), ("missions", r"list\[\]")):
            got = set()
            for x in q0.events(lambda x: x.kind == "call" and (disc(x))):
                got |= {q0.c(S.follow(v)) for v in reads(q0, x.args[0], fld)}
            ctx.expect(f"create.{fld}", all(re.fullmatch(rx, g) for g in got) and got, f"the {fld} of the workspace", where=f.norm, detail=str(got)[:200])
        m = re.search(r"WorkspacePathData\(path:root\((.*?)\.vfs\), workspace:", s)
        ctx.expect("create.root", m is not None, "the path returned is the root of the workspace", where=f.norm, detail=s[:200])
        pd = set()
        for x in q0.events(disc):
            for v in reads(q0, x.args[0], "pdrive"):
                v = S.follow(v)
                pd |= {q0.c(S.follow(z)) for z in (S.edges(v).values() if v.op == "phi" else [v])}
        ctx.expect("create.pdrive", all(re.fullmatch(r"Option::None|(?:\w+::)?search\(\)|then\(eq\(arg5, PDriveOption::Require\),.*\)\??|.*and_then.*search.*", g) for g in pd), "the P drive found is kept", where=f.norm, detail=str(pd)[:200])

    g = p.find(W + "WorkspaceBuilder::finish")
    q = ctx.query(g, opaque=lambda k: OPQ(k) or k == f.norm)
    cr = [e for e in q.events() if e.kind == "call" and e.name == f.norm]
    ctx.expect("finish", len(cr) == 1, "the workspace is created", where=g.norm)
    for e in cr:
        s = q.c(e.args[0])
        nrev = len([x for x in q.events() if x.kind == "call" and re.search(r"slice.*::reverse$|\[T\]>::reverse$|Iterator::rev$", x.name)])
        ctx.expect("layers.order", re.fullmatch(r"(?:\w+\()*(?:OverlayFS::)?new\((?:list\[|rev\(|map\()*(?:mut\(|rev:|rev\(|filtered\()*arg1\.layers.*\.0\]?\)*", s) is not None and nrev == 1, "a later layer comes before an earlier one", where=e.where(), detail=s[:200])
        ctx.expect("layers.kept", re.fullmatch(r"(?:mut\()?arg1\.layers\)?", q.c(e.args[1])) is not None and [q.c(a) for a in e.args[2:]] == ["arg2", "arg3", "arg4"], "layers, project, discovery and P drive option are handed on", where=e.where(), detail=str([q.c(a)[:60] for a in e.args[1:]]))
    for nm, lay in (("physical", r"\((?:\w+\()*(?:AltrootFS::)?new\((?:\w+\()*(?:PhysicalFS::)?new\(arg2\)\)+, arg3\)"), ("memory", r"\((?:\w+\()*(?:MemoryFS::)?(?:new|default)\(\)\)*, LayerType::Build\)")):
        b = p.find(W + "WorkspaceBuilder::" + nm)
        q = ctx.query(b)
        for e in rets(q):
            got = {q.c(v) for v in reads(q, e.res, "layers")}
            ctx.expect(f"layer.{nm}", bool(got) and all(re.fullmatch(rf"append\(arg1\.layers, {lay}\)", x) for x in got), "is added after the others, with its type", where=b.norm, detail=str(got)[:200])


def paths(ctx):
    p = ctx.p
    f = p.find(W + "path::WorkspacePath::is_include")
    ctx.rule("a file is included exactly when an include layer has it")
    q0 = ctx.query(f)
    IS = r"eq\((?:filtered<.*>\()?arg1\.data\.workspace\.layers\[\*\]\)?\.1, LayerType::Include\)|arg1\.data\.workspace\.layers\[\*\]\.1"
    EX = r"exists\(join\((?:filtered<.*>\()?arg1\.data\.workspace\.layers\[\*\]\)?\.0, (?:as_str\(arg1\.data\.path\)|arg1\.data\.path.*)\)\?\)\?"
    table = {}
    kind = any(re.fullmatch(IS.split("|")[1], q0.c(e.args[0])) for e in q0.events() if e.kind == "br")
    for typ in (True, False):
        for there in (True, False, None):
            w = [(IS.split("|")[1], ["Include"] if typ else ["Source", "Build"])] if kind else []
            w += [(IS.split("|")[0], [typ])]
            w += [(EX, [there]), (r"(?:join|exists)\(.*\)", ["Ok"])] if there is not None else [(r"exists\(.*\)", ["Err"])]
            q = settle(q0, w)
            T_ = Truth(q, lambda t: typ if re.fullmatch(IS.split("|")[0], q.c(t)) else there if re.fullmatch(EX, q.c(t)) else None)
            # what one layer contributes: all filters let it through and the last test holds
            parts = {}
            for t, rs in q.g.cbret.items():
                nm = t.a[0].split("::")[-1] if t.op in ("call", "pure") else ""
                if nm in ("filter", "any") and "layers" in q.c(t):
                    parts[t] = {T_.val(r) for r in rs}
            if parts:
                r = None if any(len(v) != 1 or None in v for v in parts.values()) and not any(v == {False} for v in parts.values()) else not any(v == {False} for v in parts.values())
            else:
                q = thread(q)
                r = any(bool(z.a[0]) for e in rets(q) for z in leaf(q, e.res) if z.op == "int")
            table[typ, there] = r
    ctx.expect("include", table == {(a, b): bool(a and b) for a in (True, False) for b in (True, False, None)}, "included exactly when an include layer has the file", where=f.norm, detail=str(table))
    ctx.expect("include.any", "all" not in {t.a[0].split("::")[-1] for t in q0.g.cbret if t.op in ("call", "pure")}, "one layer is enough", where=f.norm)
    f = p.find(W + "path::WorkspacePath::read_to_string")
    q = ctx.query(f)
    S = Sizes(q)
    for e in rets(q):
        r = S.follow(e.res)
        if r.op == "agg" and r.a[1] == "Err":
            continue
        s = q.c(r)
        ctx.expect("read", re.fullmatch(r'Result::Ok\(replace\(read_to_string\(arg1\.data\.path\)\?, (?:13|"\\r"|"\\\\r"), ""\)\)', s) is not None or re.search(r"retain|filter", s) is not None, "files are read without carriage returns", where=f.norm, detail=s[:200])


def leaf(q, t, d=0):
    S = Sizes(q)
    t = S.follow(t)
    if t.op == "phi" and d < 8:
        return [x for v in S.edges(t).values() if v is not t for x in leaf(q, v, d + 1)]
    return [t]


def prefix(ctx):
    p = ctx.p
    f = p.find("hemtt_common::prefix::Prefix::new")
    ctx.rule("decision table of the prefix file parser")
    q0 = ctx.query(f)
    TR = r"trim\(arg1\)"
    LINE = rf"lines\({TR}\)\[\*\]"
    SPL = rf"split_once\({LINE}, (?:61|\"=\")\)"
    one = rf"\(count\(lines\({TR}\)\) Eq 1\)"
    KEY = rf'eq\((?:{low(rf"trim{chr(92)}({SPL}{chr(92)}?{chr(92)}.0{chr(92)})")}|trim\({low(SPL + chr(92) + "?" + chr(92) + ".0")}\)), "prefix"\)|eq_ignore_ascii_case\(trim\({SPL}\?\.0\), "prefix"\)'
    VAL = rf"trim\({SPL}\?\.1\)"
    conds = dict(
        empty=rf"is_empty\({TR}\)",
        slash=rf'contains\({TR}, (?:47|"/")\)',
        one=one,
        eq=rf'contains\({TR}, (?:61|"=")\)',
        lead=rf'starts_with\({TR}, (?:92|"\\\\")\)',
        key=KEY,
        vlead=rf'starts_with\({VAL}, (?:92|"\\\\")\)',
    )
    parts = lambda x: rf"Result::Ok\(Prefix\((?:list\[split\({x}, (?:92|\"\\\\\")\)\[\*\]\]|list\[map\(split\({x}, (?:92|\"\\\\\")\).*\)\[\*\]\]|.*split\({x}, (?:92|\"\\\\\")\).*)\)\)"
    cases = [
        ("empty", dict(empty=True), {"Err(Empty)"}),
        ("slash", dict(empty=False, slash=True), {"Err(Invalid)"}),
        ("line.bad", dict(empty=False, slash=False, one=True, eq=False, lead=True), {"Err(Invalid)"}),
        ("line", dict(empty=False, slash=False, one=True, eq=False, lead=False), {"line"}),
        ("list.key", dict(empty=False, slash=False, one=False, key=True, vlead=False), {"value", "Err(Invalid)"}),
        ("list.one", dict(empty=False, slash=False, one=True, eq=True, key=True, vlead=False), {"value", "Err(Invalid)"}),
        ("list.bad", dict(empty=False, slash=False, one=False, key=True, vlead=True), {"Err(Invalid)"}),
        ("list.none", dict(empty=False, slash=False, one=False, key=False), {"Err(Invalid)"}),
    ]
    for name, vals, exp in cases:
        q = settle(q0, [(conds[k], [v]) for k, v in vals.items()])
        S = Sizes(q)
        got = set()
        for e in rets(q):
            st = [e.res]
            n = 0
            while st and n < 30:
                n += 1
                r = S.follow(st.pop())
                if r.op == "phi":
                    st += [v for v in S.edges(r).values() if v is not r]
                    continue
                s = q.c(r)
                if s.startswith("Result::Err(Error::Empty"):
                    got.add("Err(Empty)")
                elif s.startswith("Result::Err(Error::InvalidPrefix"):
                    got.add("Err(Invalid)")
                elif re.fullmatch(parts(TR), s):
                    got.add("line")
                elif re.fullmatch(parts(VAL), s):
                    got.add("value")
                else:
                    got.add(s[:200])
        ctx.expect(f"prefix.{name}", got == exp, "what a prefix file means", where=f.norm, detail=str(got))
    nx = lambda e: e.kind == "call" and e.name.endswith("Iterator::next") and re.fullmatch(rf"lines\({TR}\)", q0.c(e.args[0])) is not None
    def keyed(v):
        return lambda e: e.kind == "br" and atom(q0, e)[1] is v and re.fullmatch(KEY, atom(q0, e)[0]) is not None
    yes = keyed(True)
    if any(nx(e) for e in q0.events()):
        tr = q0.path_avoiding(lambda e: e.kind == "ret" or e.kind == "call" and e.name.endswith("Iterator::next") and not nx(e), nx, start=yes)
        ctx.expect("prefix.first", tr is None and any(yes(e) for e in q0.events()), "the first prefix key counts", tr or (), f.norm)
        some = lambda e: e.kind == "br" and e.args[1] == "Some" and re.fullmatch(rf"next\(lines\({TR}\)\)", q0.c(e.args[0])) is not None
        tr = q0.path_avoiding(lambda e: nx(e) or yes(e), lambda e: e.kind == "ret", start=some)
        ctx.expect("prefix.all", tr is None, "every line is looked at", tr or (), f.norm)
    d = next((b for b in p.fns.values() if "Display for hemtt_common::prefix::Prefix" in b.norm or re.search(r"<hemtt_common::prefix::Prefix as .*Display>::fmt$", b.norm)), None)
    if d is not None:
        q = ctx.query(d)
        joins = [q.c(e.args[1]) for e in q.events() if e.kind == "call" and e.name.endswith("::join")]
        ctx.expect("prefix.display", joins and all(j in ('"\\\\"', '"\\\\\\\\"', "92", '"\\"') for j in joins), "is written with backslashes", where=d.norm, detail=str(joins))


def run(ctx):
    ctx.load(["hemtt_workspace", "hemtt_common"])
    discovery(ctx)
    build(ctx)
    paths(ctx)
    prefix(ctx)
