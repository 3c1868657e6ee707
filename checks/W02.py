"""Workspace paths."""
import itertools
from rules import *
from lin import *
from coll import *
from logic import *
from C03 import rets

META = dict(
    title="A path in the workspace resolves to one file, by fixed rules",
    statement="A path that starts with a slash is looked for on the P drive when it starts with /a3/ and one is in use, then at the root of the workspace, then in the folder of the longest addon prefix it starts with, first exactly and then ignoring case; any other path is looked for next to the file that uses it. Backslashes count as slashes and prefixes ignore case, and whatever is found under another case is reported with its case on disk. The virtual path of a file replaces the folder of the innermost addon that holds it by that addon's prefix.",
    over=["inputs", "environment"],
    forall="all requested paths, all sets of prefixes, all contents of the workspace and the P drive",
    why="the fixtures have one prefix per lookup and files in the right case; which lookup wins depends on what else exists",
    files=["libs/workspace/src/path.rs", "libs/common/src/strip.rs"],
    mech=[("WorkspacePath::locate", "libs/workspace/src/path.rs"), ("as_virtual_str", "libs/workspace/src/path.rs"), ("case-insensitive search", "libs/workspace/src/path.rs")],
    technique="decision table of the lookup over MIR event graphs (every combination of what exists), quantifier and selection queries on the prefix search",
    note="What the virtual filesystem and the operating system answer is taken as given, and so is the P drive search, which depends on the machine.",
)

W = "hemtt_workspace::"
NP = r'replace\(arg2, (?:92|"\\\\"|"\\\\\\\\"), (?:47|"/")\)'
WS = r"arg1\.data\.workspace"
OPQ = lambda k: bool(re.search(r"PDrive::path_to$|strip_prefix_insensitive$|PDriveOnDemand", k))
PICK = r"(?:max_by_key|max_by|min_by_key|min_by|find|next|last|reduce|fold|find_map)"


LOOP = re.compile(rf"starts_with\(to_lowercase\({NP}\), .*{WS}\.pointers\[\*\]\.0.*\)")


def searches(p):
    """functions that look for a path on disk"""
    out = set()
    for b in p.fns.values():
        if b.norm.startswith(W + "path::") and "{closure" not in b.norm and b.argc and "Option<std::path::PathBuf" in str(b.locals[0][0]) and "WorkspacePath" not in str(b.locals[1][0]):
            out.add(b.norm)
    return out


def lookup(ctx):
    p = ctx.p
    f = p.find(W + "path::WorkspacePath::locate")
    ci = searches(p)
    q0 = ctx.query(f, opaque=lambda k: OPQ(k) or k in ci)
    used = {e.name for e in q0.events() if e.kind == "call" and e.name in ci}
    CI = "(?:" + "|".join(sorted(re.escape(n.split("::")[-1]) for n in used) or ["-"]) + ")"
    # written as a loop, the chosen prefix is one of the elements
    looped = any(e.kind == "br" and LOOP.match(q0.c(e.args[0])) for e in q0.events())
    SEL = rf"{PICK}\(.*{WS}\.pointers.*\)"
    SEL1 = rf"(?:{SEL}\?|{WS}\.pointers\[\*\])"
    conds = [
        ("a3", rf'starts_with\(to_lowercase\({NP}\), "/a3/"\)', (True, False)),
        ("abs", rf'starts_with\({NP}, (?:47|"/")\)', (True, False)),
        ("pd", rf"{WS}\.pdrive", ("Some", "None")),
        ("pf", r"path_to\(.*\)", ("Some", "None")),
        ("root", rf"exists\(join\({WS}\.vfs, {NP}\)\?\)\?", (True, False)),
        ("ptr", LOOP.pattern if looped else SEL, (True, False) if looped else ("Some", "None")),
        ("in", rf"exists\(join\({SEL1}\.1, .*\)\?\)\?", (True, False)),
        ("ci", rf"{CI}\(.*\)", ("Some", "None")),
        ("rel", rf"exists\(join\(parent\(arg1\.data\.path\), {NP}\)\?\)\?", (True, False)),
    ]
    kinds = {
        "pdrive": rf"path_to\({WS}\.pdrive\?, {NP}\)\?",
        "root": rf"join\({WS}\.vfs, {NP}\)\?",
        "prefix": rf"join\({SEL1}\.1, .*\)\?",
        "prefix-case": rf"join\({WS}\.vfs, (?:to_str|to_string_lossy|display)\({CI}\((?!{NP}\)).*\)\?\)\??\)\?",
        "case": rf"join\({WS}\.vfs, (?:to_str|to_string_lossy|display)\({CI}\({NP}\)\?\)\??\)\?",
        "relative": rf"join\(parent\(arg1\.data\.path\), {NP}\)\?",
    }

    def spec(v):
        if v["a3"] and v["pd"] and v["pf"]:
            return "pdrive"
        if v["abs"]:
            if v["root"]:
                return "root"
            if v["ptr"]:
                return "prefix" if v["in"] else "prefix-case" if v["ci"] else None
            return "case" if v["ci"] else None
        return "relative" if v["rel"] else None

    ctx.rule("decision table: what is found for every combination of what exists; the case is reported exactly when it differs")
    seen = set()
    for vals in itertools.product((True, False), repeat=len(conds)):
        v = dict(zip([c[0] for c in conds], vals))
        # only combinations that can happen and differ in what is looked at
        if v["a3"] and not v["abs"] or v["abs"] and v["rel"] or not v["a3"] and (v["pd"] or v["pf"]) or v["pf"] and not v["pd"] or not v["abs"] and (v["root"] or v["ptr"] or v["in"] or v["ci"]) or v["in"] and not v["ptr"]:
            continue
        want = [(rx, [al[0] if v[n] else al[1]]) for n, rx, al in conds]
        want += [(rf"(?:strip_prefix|strip_prefix_of|strip_prefix_insensitive)\(.*\)", ["Some"])]
        for low, same in ((True, True), (True, False), (False, False)):
            def kn(q):
                def k(t):
                    e = equality(t)
                    if not e:
                        return None
                    a, b = q.c(e[0]), q.c(e[1])
                    if "as_str(" not in a + b:
                        return None
                    lowered = [re.match(r"to_(?:ascii_)?lowercase\(", x) is not None for x in (a, b)]
                    if lowered == [True, True]:
                        return low is e[2]
                    if lowered == [False, False] and not (a + b).startswith("len("):
                        return same is e[2]
                    return None
                return k
            q = settle(q0, want, kn)
            key = ",".join(n for n in v if v[n]) or "nothing"
            got = []
            for e in rets(q):
                got += results(q, e.res)
            s = spec(v)
            kn_ = {next((k for k in ("case", "prefix-case", "prefix", "root", "relative", "pdrive") if re.fullmatch(kinds[k], x[0])), x[0][:150]) if x else None for x in got}
            if looped and v["ptr"] and s in kn_:
                # without any prefix the loop does not run
                kn_ -= {spec({**v, "ptr": False, "in": False, "ci": c}) for c in (True, False)} - {s}
            if (key, "path") not in seen:
                seen.add((key, "path"))
                ctx.expect(f"found.{key}", kn_ == {s}, f"with {key} the path resolves to {s or 'nothing'}", where=f.norm, detail=str(kn_)[:300])
            if s is None or kn_ != {s} or looped and v["ptr"]:
                continue
            for x in got:
                if x is None or not re.fullmatch(kinds[s], x[0]):
                    continue
                path, case = x
                if s in ("case", "prefix-case"):
                    ok = re.fullmatch(rf"Option::Some\((?:to_string\()?.*{CI}\(.*\)\?.*\)", case) is not None
                else:
                    ok = case == "Option::None" if not (low and not same) else re.fullmatch(r"Option::Some\(.*\)", case) is not None and path in case
                ctx.expect(f"case.{key}.{low}.{same}", ok, "a path found under another case is reported as it is on disk, others are not", where=f.norm, detail=case[:200])
    # which part of the path is looked for below the prefix's folder
    q = settle(q0, [(rf"(?:strip_prefix|strip_prefix_of|strip_prefix_insensitive)\(.*\)", ["Some"])])
    js = [e for e in q.events() if e.kind == "call" and e.name.endswith("VfsPath::join") and re.fullmatch(rf"{SEL1}\.1", q.c(e.args[0]))]
    for e in js:
        s = q.c(e.args[1])
        B = rf"{SEL1}\.0"
        ok = rest(s, NP, B)
        ctx.expect("prefix.rest", ok, "below the prefix's folder, the rest of the path is looked for", where=e.where(), detail=s[:300])
    ctx.expect("prefix.rest", bool(js), "the folder of the prefix is looked in", where=f.norm)
    for e in q.events():
        if e.kind == "call" and e.name in ci:
            s = q.c(e.args[0])
            ok = re.fullmatch(NP, s) is not None or re.fullmatch(rf"(?:trim_start_matches|strip_prefix|trim_matches)\(as_str\(join\({SEL1}\.1, .*\)\?\), 47\)\??|as_str\(join\({SEL1}\.1, .*\)\?\)", s) is not None
            ctx.expect("ci.path", ok, "what is looked for ignoring case is the same path", where=e.where(), detail=s[:300])
    picks(ctx, q0, f, rf"starts_with\(to_lowercase\({NP}\), ", lambda el: [f"«to_lowercase({el}.0)»/", f"«{el}.0»/"], "0")


def rest(s, path, base):
    """s is the path without the base and the slash after it"""
    strip = rf"strip_prefix_insensitive\({path}, {base}\)\?|{path}\[RangeFrom\(start:len\({base}\)\)\]|get\({path}, RangeFrom\(start:len\({base}\)\)\)\?"
    for rx in (rf"strip_prefix_of\(47, (?:{strip})\)\?", rf"strip_prefix\((?:{strip}), (?:47|\"/\")\)\?", rf"{path}\[RangeFrom\(start:\(?len\({base}\) ?\+ ?1\)?\)\]", rf"(?:trim_start_matches)\((?:{strip}), (?:47|\"/\")\)"):
        if re.fullmatch(rx, s):
            return True
    return False


def results(q, t, depth=0):
    """(path text, case text) of successful results, None for nothing found"""
    S = Sizes(q)
    t = S.follow(t)
    if depth > 20:
        return [("?", "?")]
    if t.op == "phi":
        return [x for v in S.edges(t).values() if v is not t for x in results(q, v, depth + 1)]
    if t.op == "agg" and t.a[1] == "Err":
        return []
    if t.op == "agg" and t.a[1] in ("Ok", "Some"):
        return results(q, t.a[3][0], depth + 1)
    if t.op == "agg" and t.a[1] == "None":
        return [None]
    if t.op == "agg":
        f = dict(zip(t.a[2], t.a[3]))
        if "path" in f and "case_mismatch" in f:
            out = []
            for pth in inner(q, f["path"]):
                cs = [f["case_mismatch"]]
                c = S.follow(cs[0])
                cs = [S.follow(v) for v in S.edges(c).values() if v is not c] if c.op == "phi" else [c]
                out += [(pth, q.c(c)) for c in cs]
            return out
    return [(q.c(t), "?")]


def inner(q, t):
    """the path in a WorkspacePath"""
    S = Sizes(q)
    out = set()
    for d in reads(q, t, "data"):
        d = S.follow(d)
        while d.op in ("call", "pure") and d.a[0].endswith("Arc::new"):
            d = S.follow(d.a[1][0])
        for x in ([d] if d.op != "phi" else S.edges(d).values()):
            x = S.follow(x)
            if x.op in ("call", "pure") and x.a[0].endswith("Arc::new"):
                x = S.follow(x.a[1][0])
            for y in reads(q, x, "path"):
                y = S.follow(y)
                out |= {q.c(z) for z in (S.edges(y).values() if y.op == "phi" else [y])}
    return out or {"?"}


def picks(ctx, q, f, start, texts, fld):
    """the prefix chosen is the longest of those the path starts with"""
    ctx.rule("of all prefixes the path starts with, up to a slash and ignoring case, the longest is chosen")
    sel = {}
    for t in q.g.cbret:
        if t.op in ("call", "pure") and t.a[1] and ".pointers" in q.c(t):
            sel.setdefault(t.a[0].split("::")[-1], []).append(t)
    brs = [e for e in q.events() if e.kind == "br" and re.match(r"starts_with\(.*pointers\[\*\]\.", q.c(e.args[0]))]
    if brs and not set(sel) & {"filter", "find", "position", "max_by", "max_by_key", "min_by_key", "min_by", "find_map", "filter_map"}:
        # a loop over all prefixes that keeps the longest
        for e in brs:
            t = e.args[0]
            el = rf"{WS}\.pointers\[\*\]"
            ok = re.match(start, q.c(t)) is not None and text(q, t.a[1][1]) in texts(el.replace("\\", ""))
            ctx.expect("pick.condition", ok, "the path starts with the prefix and a slash, ignoring case", where=e.where(), detail=text(q, t.a[1][1])[:200])
        L = r"len\((?:as_str\()?arg1.data.workspace.pointers\[\*\]\." + fld + r"\)?\)"
        cmp = {str(e.args[1]) for e in q.events() if e.kind == "br" and re.fullmatch(rf"\({L} (?:Le|Lt|Ge|Gt) {L}\)|(?:le|lt|ge|gt|cmp)\({L}, {L}\)", q.c(e.args[0]))}
        ctx.expect("pick.longest", len(cmp) > 1, "the longest prefix wins", where=f.norm, detail=str(cmp))
        return
    cond = sel.get("filter", []) + sel.get("find", []) + sel.get("position", [])
    ctx.expect("pick.condition", bool(cond), "the prefixes are searched", where=f.norm, detail=str(list(sel)))
    for t in cond:
        el = Canon(q).elem(t.a[1][0])
        for r in q.g.cbret[t]:
            r = Sizes(q).follow(r)
            s = q.c(r)
            ok = r.op in ("call", "pure") and r.a[0].endswith("starts_with") and re.match(start, s) is not None and text(q, r.a[1][1]) in texts(el)
            ctx.expect("pick.condition", ok, "the path starts with the prefix and a slash, ignoring case", where=f.norm, detail=(text(q, r.a[1][1]) if r.op in ("call", "pure") and len(r.a[1]) > 1 else s)[:200])
    best = sel.get("max_by_key", []) + sel.get("max_by", []) + sel.get("min_by_key", [])
    ok = False
    for t in best:
        el = Canon(q).elem(t.a[1][0])
        n = t.a[0].split("::")[-1]
        for r in q.g.cbret[t]:
            r = Sizes(q).follow(r)
            if r.op == "agg" and n == "max_by_key" and not r.a[1] and r.a[3]:
                r = Sizes(q).follow(r.a[3][0])
            s = q.c(r)
            L = r"len\((?:as_str\()?.*\." + fld + r"\)?\)"
            ok = re.fullmatch(L, s) is not None if n == "max_by_key" else re.fullmatch(rf"Reverse\(.*{L}\)", s) is not None if n == "min_by_key" else re.fullmatch(rf"cmp\({L}, {L}\)", s) is not None
            ctx.expect("pick.longest", ok, "the longest prefix wins", where=f.norm, detail=s[-200:])
    if not best:
        ctx.expect("pick.longest", False, "the longest prefix wins whatever the order of the map", where=f.norm, detail=str(list(sel)))


def virtual(ctx):
    p = ctx.p
    f = p.find(W + "path::WorkspacePath::as_virtual_str")
    q0 = ctx.query(f)
    SEL = rf"{PICK}\(.*{WS}\.pointers.*\)"
    LEN = rf"len\(as_str\({SEL}\?\.1\)\)"
    PS = r'replace\(as_str\(arg1\.data\.path\), 92, "/"\)'
    picks(ctx, q0, f, rf"starts_with\(to_lowercase\({PS}\), ", lambda el: [f"«to_lowercase(as_str({el}.1))»/"], "1")
    ctx.rule("the virtual path is the prefix and the rest of the path, or the path itself outside of any addon")
    for v in ("Some", "None"):
        q = settle(q0, [(SEL, [v])])
        for e in rets(q):
            s = text(q, e.res)
            if v == "None":
                ok = re.fullmatch(f"«{PS}»", s) is not None
            else:
                m = re.fullmatch(r"«([^«»]*)»«([^«»]*)»", s)
                ok = m is not None and re.fullmatch(rf"{SEL}\?\.0", m.group(1)) is not None and re.fullmatch(rf"{PS}\[RangeFrom\(start:{LEN}\)\]|split_at\({PS}, {LEN}\)\.1|get\({PS}, RangeFrom\(start:{LEN}\)\)\?", m.group(2)) is not None
            ctx.expect(f"virtual.{v}", ok, "the folder of the addon is replaced by its prefix" if v == "Some" else "a path outside of all addons stays", where=f.norm, detail=s[:300])
        ctx.expect(f"virtual.{v}", bool(rets(q)), "has a result", where=f.norm)


def disk(ctx):
    p = ctx.p
    ctx.rule("the case-insensitive search follows every component, and finds something only when all of them exist")
    deep = [b for b in p.fns.values() if b.norm in searches(p) and any(blk["t"][0] == "call" and "read_dir" in str(blk["t"][1]) for blk in b.blocks)]
    ctx.expect("disk", len(deep) >= 1, "the search on disk", where=W + "path")
    for b in deep:
        q = ctx.query(b)
        path = next(i for i in range(1, b.argc + 1) if "&" in str(b.locals[i][0]))
        CMP = r"components\(arg%d\)" % path
        push = lambda e: e.kind == "call" and e.name.endswith("PathBuf::push")
        NAME = re.compile(rf"{CMP}\[\*\]\.0@Normal|as_os_str\({CMP}\[\*\]\)")
        match = lambda e: e.kind == "br" and re.match(r"eq_ignore_ascii_case\(", q.c(e.args[0])) is not None and NAME.search(q.c(e.args[0])) is not None and str(e.args[1]) == "True"
        for e in q.events(push):
            ok = re.search(r"file_name\(.*read_dir\(", q.c(e.args[1])) is not None
            ctx.expect("disk.push", ok, "the name on disk is followed", where=e.where(), detail=q.c(e.args[1])[:200])
        found = [t for t in q.g.cbret if t.op in ("call", "pure") and t.a[0].endswith("Iterator::find") and "read_dir(" in q.c(t)]
        by_find = bool(found) and all(re.match(r"eq_ignore_ascii_case\(", q.c(Sizes(q).follow(r))) and NAME.search(q.c(Sizes(q).follow(r))) for t in found for r in q.g.cbret[t])
        if by_find:
            match = lambda e: e.kind == "call" and e.name.endswith("Iterator::find") and "read_dir(" in q.c(e.args[0])
        tr = q.path_avoiding(match, push)
        nx = lambda e: e.kind == "call" and e.name.endswith("Iterator::next") and re.fullmatch(CMP, q.c(e.args[0])) is not None
        tr2 = q.path_avoiding(lambda e: match(e) or nx(e), push, start=push)
        ctx.expect("disk.match", tr is None and any(match(e) for e in q.events()), "a name is followed only when it equals the component, ignoring case", tr or (), b.norm)
        normal = lambda e: e.kind == "br" and e.args[1] == "Normal" and re.fullmatch(rf"{CMP}\[\*\]", q.c(e.args[0])) is not None
        qs = settle(q, [])
        done = lambda e: nx(e) or e.kind == "ret" and not (e.res.op == "agg" and e.res.a[1] == "None")
        tr = qs.path_avoiding(push, done, start=normal)
        ctx.expect("disk.every", tr is None and any(normal(e) for e in q.events()), "every component has to be found", tr or (), b.norm)
        twice = qs.path_avoiding(nx, push, start=push)
        ctx.expect("disk.once", twice is None, "one name per component", twice or (), b.norm)
        EX = r"(?:try_)?exists\(.*\)"
        for v in (True, False):
            qq = settle(q, [(EX, [v])])
            got = {Sizes(qq).follow(e.res).a[1] if Sizes(qq).follow(e.res).op == "agg" else "?" for e in rets(qq)}
            ctx.expect(f"disk.exists.{v}", "Some" in got if v else got <= {"None"}, "what is found exists", where=b.norm, detail=str(got))
    top = [b for b in p.fns.values() if b.norm in searches(p) and b not in deep]
    for b in top:
        q = ctx.query(b, opaque=lambda k: any(k == d.norm for d in deep))
        cs = [q.c(e.args[1]) for e in q.events() if e.kind == "call" and any(e.name == d.norm for d in deep)]
        ctx.expect("disk.roots", [re.sub(r"^(?:from|new|into|mut)\((.*)\)$", r"\1", c) for c in cs] == ['"."', '"./include"'] and all(q.c(e.args[0]) == "arg1" for e in q.events() if e.kind == "call" and any(e.name == d.norm for d in deep)), "the project is searched before its include folder", where=b.norm, detail=str(cs))
    f = next((b for b in p.fns.values() if b.norm.endswith("strip_prefix_insensitive") and "str" in b.norm and "String" not in b.norm), None)
    ctx.rule("stripping a prefix never splits a character")
    if f is not None:
        q = ctx.query(f)
        bad = next((e for e in q.events() if e.kind == "call" and e.name.endswith("Index::index") and not re.search(r"is_char_boundary", str([q.c(x.args[0]) for x in q.events() if x.kind == "br"]))), None)
        cut = {q.c(e.args[1]) for e in q.events() if e.kind == "call" and e.name.endswith("Index::index")}
        get = any(e.kind == "call" and e.name.endswith("::get") for e in q.events())
        ctx.expect("strip", get or bad is None, "a prefix that ends inside a character is no prefix", where=bad.where() if bad else f.norm, detail=str(cut))
        for v in (True, False):
            qq = settle(q, [(r"get\(.*\)", ["Some"]), (r"eq_ignore_ascii_case\(.*\)", [v])])
            got = {qq.c(e.res) for e in rets(qq)}
            ok = got and got <= {"Option::Some(arg1[RangeFrom(start:len(arg2))])", "get(arg1, RangeFrom(start:len(arg2)))", "Option::Some(split_at(arg1, len(arg2)).1)", "Option::Some(get(arg1, RangeFrom(start:len(arg2)))?)"} if v else "Option::None" in got and not any("Some(" in g for g in got)
            ctx.expect(f"strip.{v}", ok, "the rest after a prefix that matches ignoring case", where=f.norm, detail=str(got))


def run(ctx):
    ctx.load(["hemtt_workspace", "hemtt_common"])
    lookup(ctx)
    virtual(ctx)
    disk(ctx)
