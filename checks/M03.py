"""Project and addon configuration."""
from rules import *
from wire import *
from lin import *
from logic import *
from coll import *

META = dict(
    title="Settings of project and addon files take effect as written",
    statement="Every setting of a project or addon file reaches the configuration, and its getter, under its own name with the value written, and with its documented default when it is left out; deprecated lists add to the ones that replace them, and the commit hash of a version is as many characters of its name as git_hash says (all of them when it says more). Of two overlaid or extended launch presets, each single value is that of the overriding preset when it has one, every list has the entries of both, and a chain of extends is followed to its end or reported when it names an unknown preset or one already followed. Settings that contradict each other (a version path and components, minor or patch without major, components missing, an empty prefix, lints or launch presets both in the project file and in their own file) are errors, never silently resolved.",
    over=["inputs"],
    forall="all project and addon files: any subset of the settings present, any chain of presets",
    why="tests parse a few files with one or two settings each; a default that applies although a value is given, a preset list lost on the second extends or a conflict resolved silently shows only for one combination",
    files=["libs/common/src/config"],
    mech=[("From/TryFrom of the section files", "libs/common/src/config/project/*.rs, addon/*.rs"), ("LaunchOptions::overlay, LaunchOptionsFile::extend", "libs/common/src/config/project/hemtt/launch.rs"), ("HemttSectionFile::into_config", "libs/common/src/config/project/hemtt/mod.rs"), ("VersionConfig", "libs/common/src/config/project/version.rs")],
    technique="value analysis of the conversions split by which settings are present; path-language automaton of the extends chain; enumeration of the presence of version components",
    note="serde's derive is trusted to put what it reads for a name into that field; lint overrides are decided by W01.",
)

C = "hemtt_common::config::"
H = C + "project::hemtt::"
DEFAULTS = {
    "BuildOptions": dict(optional_mod_folders="true", pdrive="PDriveOption::Ignore"),
    "CheckOptions": dict(pdrive="PDriveOption::Ignore"),
    "ReleaseOptions": dict(folder="arg2", sign="true", archive="true"),
    "SigningConfig": dict(version="BISignVersion::V3"),
    "BinarizeConfig": dict(enabled="true"),
    "RapifyConfig": dict(enabled="true"),
    "DevOptions": {}, "LaunchOptions": {},
}
GETTERS = {"LaunchOptions": dict(binarize="false", file_patching="true", instances="1", rapify="true")}
LISTS = ["workshop", "dlc", "presets", "optionals", "parameters"]


def fields(p, adt):
    return [f[0] for f in p.adts[adt]["vs"][0][2]]


def field(q, t, f, hist=()):
    """the texts of the possible values of field f of the record t"""
    s = Sizes(q)
    t = s.follow(t)
    if t.op == "with":
        return values(q, t.a[3]) if t.a[1] == f else field(q, t.a[0], f, hist)
    if t.op == "agg":
        return values(q, t.a[3][t.a[2].index(f)]) if f in t.a[2] else {q.c(t)[:80]}
    if t.op == "phi":
        return set() if t in hist else {x for v in s.edges(t).values() for x in field(q, v, f, hist + (t,))}
    return {q.c(t) + "." + f}


def values(q, t, hist=()):
    """the texts of the values t can have on the paths left"""
    return {q.c(x) for x in ends(q, t, hist)}


def ends(q, t, hist=()):
    s = Sizes(q)
    t = s.follow(t)
    if t.op == "phi":
        return [] if t in hist else [x for v in s.edges(t).values() for x in ends(q, v, hist + (t,))]
    if t.op == "un" and t.a[0] == "Not":
        xs = ends(q, t.a[1], hist)
        if all(x.op == "int" for x in xs):
            return [T("int", 1 - int(x.a[0]), x.a[1]) for x in xs]
    if t.op == "fld" and not t.a[2]:
        if t in hist:
            return []
        hist = hist + (t,)
        r = inside(q, t.a[0], t.a[1], hist)
        if r is not None:
            return [x for v in r for x in ends(q, v, hist)]
    return [t]


def inside(q, t, f, hist):
    """the terms field f of the record t can be, None when t is not taken apart"""
    s = Sizes(q)
    t = s.follow(t)
    if t.op == "with":
        return [t.a[3]] if t.a[1] == f else inside(q, t.a[0], f, hist) or [T("fld", t.a[0], f, "")]
    if t.op == "agg" and f in t.a[2]:
        return [t.a[3][t.a[2].index(f)]]
    if t.op == "phi" and t not in hist:
        out = []
        for v in s.edges(t).values():
            r = inside(q, v, f, hist + (t,))
            out += r if r is not None else [T("fld", v, f, "")]
        return out
    return None


def result(q, f):
    out = set()
    for e in q.rets():
        t = e.res
        if t.op == "agg" and t.a[1] == "Ok":
            t = t.a[3][0]
        elif t.op == "agg" and t.a[1] == "Err":
            continue
        out |= field(q, t, f)
    return out


def cases(q0, f, d):
    """field f given, and left out with default d: (what, texts of the value it has to have, query)"""
    if d in ("true", "false"):
        for b in (True, False):
            q = settle(q0, [(rf"arg1\.{f}", ["Some"])], lambda q, b=b: lambda t: b if q.c(t) == f"arg1.{f}?" else None)
            yield f"given as {str(b).lower()}", {f"arg1.{f}?", str(b).lower()}, q
    else:
        yield "given", {f"arg1.{f}?"}, settle(q0, [(rf"arg1\.{f}", ["Some"])])
    yield "left out", {d} | ({"Default::default()"} if d in ("false", "0") else set()), settle(q0, [(rf"arg1\.{f}", ["None"])])


def makings(q, t, hist=()):
    """what the list t can be made of: sets of texts, one set for each way it is made"""
    out = []
    for x in ends(q, t, hist):
        if x.op == "out" and x.a[0].op == "call" and x.a[1] == 0 and len(x.a[0].a[1]) == 2 and re.search(r"::(extend|append|push|extend_from_slice)$", x.a[0].a[0]):
            if x in hist:
                continue
            more = q.c(x.a[0].a[1][1])
            more = ("each " if x.a[0].a[0].endswith("::push") else "") + re.sub(r"\[\*\]$", "", more.lstrip("*"))
            out += [m | {more} for m in makings(q, x.a[0].a[1][0], hist + (x,))]
        else:
            out.append(frozenset({q.c(x)}))
    return set(out)


def both(q, terms, a, b):
    """the list has all entries of a and of b (regexes)"""
    ways = {w for t in terms for w in makings(q, t)}
    pushed = {x for w in ways for x in w if x.startswith("each ")}
    for x in pushed:
        e = re.escape(x[5:]) + r"\[\*\]"
        put = lambda y, e=e: y.kind == "call" and y.name.endswith("::push") and re.fullmatch(e, q.c(y.args[1])) is not None
        if not every_iteration(q, put, lambda el, e=e: re.fullmatch(e, el) is not None)[0]:
            return False
    joined = rf"(collect\()?chain\(({a}, {b}|{b}, {a})\)\)?|concat\(\[({a}, {b}|{b}, {a})\]\)"
    for w in ways:
        w = {x[5:] if x.startswith("each ") else x for x in w | pushed}
        if not (len(w) == 1 and re.fullmatch(joined, *w) or len(w) == 2 and all(any(re.fullmatch(y, x) for x in w) for y in (a, b))):
            return False
    return bool(ways)


def conversions(ctx, p):
    ctx.rule("each conversion carries every setting to the field of its name: the value given, or the default")
    found = 0
    for b in sorted(p.fns.values(), key=lambda b: b.norm):
        m = re.match(rf"<({C}[\w:]+::(\w+)) as core::convert::From<{C}[\w:]+>>::from$", b.norm)
        if m:
            adt, name = m.group(1), m.group(2)
        elif b.norm == H + "release::ReleaseOptionsFile::into_config":
            adt, name = H + "release::ReleaseOptions", "ReleaseOptions"
        else:
            continue
        if name not in DEFAULTS:
            continue
        found += 1
        q0 = ctx.query(b)
        for f in fields(p, adt):
            d = DEFAULTS[name].get(f)
            if d is None:
                ctx.expect("setting", result(q0, f) == {"arg1." + f}, f"{name}.{f} is what the file says", where=b.norm, detail=f"{f} {sorted(result(q0, f))}"[:200])
                continue
            for v, want, q in cases(q0, f, d):
                got = result(q, f)
                ctx.expect("setting", bool(got) and got <= want, f"{name}.{f} {v}", where=b.norm, detail=f"{f} {v} {sorted(got)}"[:200])
    ctx.expect("conversions", found >= len(DEFAULTS), "the conversions of the sections are found", detail=str(found))
    ctx.rule("the lists under their deprecated names are added to the ones that replace them")
    q = ctx.query(p.find(f"<{C}addon::AddonConfig as core::convert::From<{C}addon::AddonFile>>::from"))
    for f, old in (("binarize", "no_bin"), ("files", "exclude")):

        lists = [x for e in q.rets() for v in inside(q, e.res, f, ()) or () for x in inside(q, v, "exclude", ()) or ()]
        ok = both(q, lists, rf"arg1\.{f}\.exclude", rf"arg1\.{old}")
        ctx.expect("deprecated", ok, f"{old} adds to {f}.exclude", where=q.root.norm, detail=str([q.c(x) for x in lists])[:200])
    for f in ("rapify", "properties"):
        ctx.expect("setting", result(q, f) == {"arg1." + f}, f"AddonConfig.{f} is what the file says", where=q.root.norm, detail=f"{f} {sorted(result(q, f))}"[:200])


def getters(ctx, p):
    ctx.rule("each getter gives the field of its name")
    n = 0
    for adt in sorted(p.adts):
        m = re.match(rf"{C}(project|addon)::(\w+::)*(\w+)$", adt)
        if not m or "File" in m.group(3) or not p.adts[adt]["vs"] or len(p.adts[adt]["vs"]) != 1:
            continue
        for f in fields(p, adt):
            b = next((b for b in p.fns.values() if b.norm == f"{adt}::{f}"), None)
            if b is None:
                continue
            n += 1
            d = GETTERS.get(m.group(3), {}).get(f)
            q0 = ctx.query(b)
            if (m.group(3), f) in (("LaunchOptions", "executable"), ("VersionConfig", "git_hash")):
                continue
            for v, want, q in list(cases(q0, f, d)) if d else [(v, None, settle(q0, [(rf"arg1\.{f}", [v])])) for v in ("Some", "None")]:
                got = {x for e in q.rets() for x in values(q, e.res)}
                if d:
                    ok = bool(got) and got <= want
                else:
                    ok = bool(got) and all(re.fullmatch(rf"(as_ref\(|as_deref\()?arg1\.{f}\)?" + (rf"|Option::Some\(arg1\.{f}\?\)" if v == "Some" else "|Option::None"), x) for x in got)
                ctx.expect("getter", ok, f"{m.group(3)}::{f} gives {f}", where=b.norm, detail=f"{v} {sorted(got)}"[:200])
    ctx.expect("getters", n >= 30, "the getters are found", detail=str(n))


def presets(ctx, p):
    ctx.rule("overlay and extend: values of the overriding preset where it has one, lists of both")
    for fn, base, over in ((H + "launch::LaunchOptions::overlay", "arg1", "arg2"), (H + "launch::LaunchOptionsFile::extend", "arg2", "arg1")):
        b = p.find(fn)
        q0 = ctx.query(b)
        name = fn.split("::")[-1]
        adt = fn.rsplit("::", 1)[0]
        for f in fields(p, adt):
            if f in LISTS:
                got = [x for e in q0.rets() for x in inside(q0, e.res, f, ()) or ()]
                ctx.expect("preset.list", both(q0, got, rf"{base}\.{f}", rf"{over}\.{f}"), f"{name}: {f} of both presets", where=fn, detail=f"{f} {[q0.c(x) for x in got]}"[:200])
                continue
            if f == "extends":
                got = result(q0, f)
                ctx.expect("preset.extends", got == {base + ".extends"}, "the chain goes on with what the extended preset extends", where=fn, detail=str(sorted(got))[:200])
                continue
            for v in ("Some", "None"):
                q = settle(q0, [(rf"{over}\.{f}", [v])])
                got = result(q, f)
                want = {f"Option::Some({over}.{f}?)", f"{over}.{f}"} if v == "Some" else {f"{base}.{f}"}
                ctx.expect("preset.value", bool(got) and got <= want, f"{name}: {f} when the overriding preset {'has' if v == 'Some' else 'lacks'} it", where=fn, detail=f"{f} {v} {sorted(got)}"[:200])
    fn = H + "launch::LaunchOptionsFile::dedup"
    q = ctx.query(p.find(fn))
    for e in q.events(lambda e: e.kind == "call" and re.search(r"Vec|slice", e.name)):
        n = e.name.split("::")[-1]
        ctx.expect("preset.dedup", n in ("sort", "sort_unstable", "dedup", "deref", "deref_mut", "as_mut_slice"), "removing duplicates loses no entry", where=e.where(), detail=n)
    ctx.rule("the executable is the one named or arma3_x64, ending in .exe exactly once")
    fn = H + "launch::LaunchOptions::executable"
    q0 = ctx.query(p.find(fn))
    for v, name in (("Some", "arg1.executable?"), ("None", '"arma3_x64"')):
        for has in (True, False, None):
            def known(q, has=has):
                return lambda t: has if has is not None and re.match(r"eq_ignore_ascii_case\(extension\(.*\"exe\"\)$", q.c(t)) else None
            q = settle(q0, [(r"arg1\.executable", [v]), (r"extension\(.*\)", ["None" if has is None else "Some"])], known)
            plain = "«arg1.executable?»" if v == "Some" else "arma3_x64"
            got = {text(q, x) for e in q.rets() for x in ends(q, e.res)}
            got = {re.sub(r"^«\"(.*)\"»", r"\1", x) for x in got}
            ctx.expect("executable", got == {plain + ("" if has else ".exe")}, f"{'named' if v == 'Some' else 'default'} executable, extension {has}", where=fn, detail=str(sorted(got))[:200])


def chain(ctx, p):
    ctx.rule("a preset is extended by each preset its chain names, in order, until one extends nothing; a name met before and an unknown name are errors")
    fn = H + "HemttSectionFile::into_config"
    q0 = ctx.query(p.find(fn), opaque=lambda k: bool(re.search(r"LaunchOptionsFile::(extend|dedup)$", k)))
    more = lambda e: e.kind == "br" and e.args[0].op == "fld" and e.args[0].a[1] == "extends"

    def again(q, e):
        """does the branch say that a name was met before (True) or not (False)?"""
        if e.kind == "br" and isinstance(e.args[1], bool):
            c = q.c(e.args[0])
            if "extends?" in c or "⟲" in c:
                if re.match(r"(contains|contains_key|any)\(", c):
                    return e.args[1]
                if re.match(r"insert\(", c):
                    return not e.args[1]
        return None

    def world(met, there):
        """the graph with no file of presets, where names were met before (or not) and are there (or not)"""
        def dead(q):
            def d(e):
                if again(q, e) is not None:
                    return again(q, e) is not met
                return met and more(e) and e.args[1] == "None" or not there and more(e) and e.args[1] == "None"
            return d
        return settle(q0, [(r"get\(arg1\.launch, .*\)", ["Some" if there else "None"])], lambda q: lambda t: False if re.match(r"(try_)?exists\(|is_file\(", q.c(t)) else None, dead=dead)

    q = world(False, True)

    def lab(e):
        if more(e):
            return "more" if e.args[1] == "Some" else "end"
        if again(q, e) is not None:
            return "new"
        if e.kind != "call":
            return None
        n = e.name.split("::")[-1]
        if n == "extend" and "LaunchOptionsFile" in e.name:
            s = q.c(e.args[1])
            return "extend" if re.match(r"get\(arg1\.launch, .*\)\?$", s) else "extend by " + s[:100]
        if n == "dedup" and "LaunchOptionsFile" in e.name:
            return "dedup"
        return None
    body = seq("more", "new", "extend")
    ctx.expect("chain.anchor", any(True for _ in q0.events(more)), "the chain of extends is followed", where=fn)
    check_language(ctx, "chain", q, lab, star(seq(star(body), "end", "dedup")), "each name of a chain is new, is looked up and extended by", accept=lambda e: not is_err(e.res), squeeze=False)
    asked = lambda e: again(q, e) is not None and not q.c(e.args[0]).startswith("insert(")
    note = lambda e: e.kind == "call" and re.search(r"::(push|insert)$", e.name) and "extends" in q.c(e.args[1])
    tr = q.path_avoiding(note, more, start=asked) if any(True for _ in q.events(asked)) else None
    ctx.expect("chain.note", tr is None, "each name followed is noted as met", tr or (), fn)
    for met, there, err in ((True, True, "LaunchConfigExtendsSelf"), (False, False, "LaunchConfigExtendsMissing")):
        q = world(met, there)
        kept = [e.where() for e in q.events(lambda e: e.kind == "call" and e.name.endswith("LaunchOptionsFile::dedup"))]
        ctx.expect("chain.error", not kept and any(err in q.c(e.res) for e in q.rets()), f"{err} is an error", where=fn, witness=kept, detail=err)


def sources(ctx, p):
    ctx.rule("presets and lints come from the project file or from their own file, never from both, and an empty prefix is an error")
    for key, fn, lst, err, sub in (
        ("launch", H + "HemttSectionFile::into_config", r"is_empty\(arg1\.launch\)", "LaunchConfigConflict", "[hemtt.launch"),
        ("lints", f"<{C}project::ProjectConfig as core::convert::TryFrom<{C}project::ProjectFile>>::try_from", r"is_empty\(arg1\.lints(\.\w+)?\)", "LintsConfigConflict", "[lints."),
    ):
        q0 = ctx.query(p.find(fn), opaque=lambda k: bool(re.search(r"LaunchOptionsFile::(extend|dedup)$|HemttSectionFile::into_config$", k)) and k != p.find(fn).key)
        for there in (True, False):
            for empty in (True, "") if key == "launch" else (True, "config", "sqf", "stringtables"):
                for sect in (True, False) if there and empty is True else (None,):
                    def known(q):
                        def kn(t):
                            c = q.c(t)
                            if re.match(r"(try_)?exists\(|is_file\(", c):
                                return there
                            if re.match(r"is_empty\(arg1\.prefix\)", c):
                                return False
                            m = re.match(lst, c)
                            if m:
                                return empty is True or m.lastindex is not None and m.group(1) != "." + empty
                            if c.startswith("contains(") and text_of(t) == sub:
                                return sect
                            return None
                        return kn
                    q = settle(q0, [], known)
                    good = [e for e in q.rets() if not is_err(e.res)]
                    bad = [q.c(e.res) for e in q.rets() if is_err(e.res)]
                    what = f"{key}: {'with' if there else 'without'} a file of their own, project file {'has none' if empty is True else ('has some ' + empty).strip()}" + ("" if sect is None else f", sections {'named' if sect else 'not named'}")
                    if there and empty is not True:
                        ctx.expect("conflict", not good and any(err in b for b in bad), what + ": an error", where=fn, detail=what)
                    elif sect:
                        ctx.expect("section", not good, what + ": an error", where=fn, detail=what)
                    else:
                        f = "lints" if key == "lints" else "launch"
                        got = {x for e in good for x in field(q, e.res.a[3][0] if e.res.op == "agg" else e.res, f)}
                        own = all("from_str(read_to_string(" in x for x in got)
                        here = all("read_to_string" not in x and "arg1." + f in x for x in got)
                        ctx.expect("source", bool(got) and (own if there else here), what + f": the {f} are {'those of the file' if there else 'those of the project file'}", where=fn, detail=what)
                        ctx.expect("no-conflict", not any(err in b for b in bad), what + ": no conflict", where=fn, detail=what)
    fn = f"<{C}project::ProjectConfig as core::convert::TryFrom<{C}project::ProjectFile>>::try_from"
    q0 = ctx.query(p.find(fn), opaque=lambda k: bool(re.search(r"HemttSectionFile::into_config$", k)))
    q = settle(q0, [], lambda q: lambda t: True if re.match(r"is_empty\(arg1\.prefix\)", q.c(t)) else None)
    ctx.expect("prefix", all(is_err(e.res) for e in q.rets()), "an empty prefix is an error", where=fn)
    for f in ("name", "prefix", "mainprefix", "properties"):
        ctx.expect("setting", result(q0, f) == {"arg1." + f}, f"ProjectConfig.{f} is what the file says", where=fn, detail=f"{f} {sorted(result(q0, f))}"[:200])
    for f in ("version", "files", "signing"):
        got = result(q0, f)
        ctx.expect("setting", bool(got) and all(f"arg1.{f}" in x and not any(f"arg1.{g}" in x for g in ("version", "files", "signing", "lints", "name") if g != f) for x in got), f"ProjectConfig.{f} comes from its section", where=fn, detail=f"{f} {sorted(got)}"[:200])


def text_of(t):
    for a in t.a[1] if t.op in ("pure", "call") and isinstance(t.a[1], tuple) else ():
        if a.op == "str":
            return a.a[0]
        if a.op == "ref" and getattr(a.a[0], "op", None) == "str":
            return a.a[0].a[0]
    return None


def version(ctx, p):
    ctx.rule("for every subset of the version settings: conflicts and missing components are errors, otherwise the path or the components are what is used")
    fn = f"<{C}project::version::VersionConfig as core::convert::TryFrom<{C}project::version::VersionSectionFile>>::try_from"
    q0 = ctx.query(p.find(fn))
    for bits in range(16):
        has = dict(zip(("path", "major", "minor", "patch"), (bool(bits & 8), bool(bits & 4), bool(bits & 2), bool(bits & 1))))
        def known(q, has=has):
            def kn(t):
                m = re.fullmatch(r"(any|all)\(\[(.*)\], fn:(?:Option::)?is_(some|none)\)", q.c(t))
                xs = re.findall(r"arg1\.(\w+)", m.group(2)) if m else []
                if xs and all(x in has for x in xs):
                    return (any if m.group(1) == "any" else all)(has[x] == (m.group(3) == "some") for x in xs)
                return None
            return kn
        q = settle(q0, [(rf"arg1\.{k}", ["Some" if v else "None"]) for k, v in has.items()], known)
        what = "version with " + (" ".join(k for k, v in has.items() if v) or "nothing")
        any_ = has["major"] or has["minor"] or has["patch"]
        want = None
        if has["path"] and any_:
            want = {"VersionPathConflict"}
        elif any_ and not has["major"]:
            want = {"ExpectedMajor"}
        elif any_ and not (has["minor"] and has["patch"]):
            want = {f"Expected{k.capitalize()}" for k in ("minor", "patch") if not has[k]}
        errs = {re.search(r"Error::(\w+)\W*$", x).group(1) if re.search(r"Error::(\w+)\W*$", x) else x[:80] for e in q.rets() if is_err(e.res) for x in values(q, e.res)}
        good = [e for e in q.rets() if not is_err(e.res)]
        if want:
            ctx.expect("version.error", not good and errs and errs <= want, what + " is an error", where=fn, detail=f"{what} {sorted(errs)}")
            continue
        ctx.expect("version.ok", bool(good) and not errs, what + " is fine", where=fn, detail=f"{what} {sorted(errs)}")
        path = result(q, "path")
        src = "arg1.path?" if has["path"] else '"addons/main/script_version.hpp"'
        ctx.expect("version.path", bool(path) and all(re.fullmatch(rf"replace\({re.escape(src)}, (92|\"\\\\\\\\?\"), \"/\"\)", x) or not has["path"] and x == src for x in path), what + ": the path of the macro file", where=fn, detail=f"{what} {sorted(path)}")
        d = result(q, "defined")
        want_d = {"Option::Some((arg1.major?, arg1.minor?, arg1.patch?, arg1.build))"} if has["major"] else {"Option::None"}
        ctx.expect("version.defined", d == want_d, what + ": the components", where=fn, detail=f"{what} {sorted(d)}"[:200])
    for v, want in (("Some", "arg1.git_hash?"), ("None", "8")):
        got = result(settle(q0, [(r"arg1\.git_hash", [v])]), "git_hash")
        ctx.expect("version.hash", got == {want}, f"git_hash {'given' if v == 'Some' else 'left out'}", where=fn, detail=str(sorted(got)))
    ctx.rule("the version is the components when defined, else that of the macro file at the path, else unknown; a commit hash is added exactly when its length is not zero")
    fn = C + "project::version::VersionConfig::internal_get"
    q0 = ctx.query(p.find(fn), opaque=lambda k: k.endswith("Version::try_from_script_version") or k.endswith("version::Version::new"))
    q = settle(q0, [(r"arg1\.defined", ["Some"])])
    D = "arg1.defined?"
    got = {x for e in q.rets() for x in values(q, e.res)}
    ctx.expect("version.get", got == {f"Result::Ok(Version::new({D}.0, {D}.1, {D}.2, {D}.3))"}, "defined components are the version", where=fn, detail=str(sorted(got))[:300])
    q = settle(q0, [(r"arg1\.defined", ["None"])])
    for there in (True, False):
        q2 = settle(q, [(r"exists\(.*\)", ["Ok"]), (r"join\(.*\)", ["Ok"]), (r"read_to_string\(.*\)", ["Ok"])], lambda q, there=there: lambda t: there if re.match(r"exists\(.*\)\?$", q.c(t)) else None)
        got = {x for e in q2.rets() for x in values(q2, e.res)}
        if there:
            ok = bool(got) and all("try_from_script_version(read_to_string(join(arg2, arg1.path)?)?)" in x for x in got)
        else:
            ok = bool(got) and all("Err" in x and "UnknownVersion" in x for x in got)
        ctx.expect("version.get", ok, f"macro file {'present' if there else 'absent'}", where=fn, detail=str(sorted(got))[:300])
    fn = C + "project::version::VersionConfig::git_hash"
    q0 = ctx.query(p.find(fn))
    for zero in (True, False):
        def known(q):
            def kn(t):
                x = equality(t)
                return zero is x[2] if x and {q.c(x[0]), q.c(x[1])} == {"arg1.git_hash", "0"} else None
            return kn
        q = settle(q0, [], known)
        for e in q.events(lambda e: e.kind == "br" and q.c(e.args[0]) == "arg1.git_hash"):
            pass
        alive = [e for e in q.rets()]
        got = {x for e in alive for x in values(q, e.res)}
        if len(got) == 2:  # a match on the number itself
            ints = lambda e: e.kind == "br" and q.c(e.args[0]) == "arg1.git_hash" and ((e.args[1] in (0, "0")) is not zero)
            got = {x for e in q.events(lambda e: e.kind == "ret") if q.path_avoiding(ints, lambda y, e=e: y is e) is not None for x in values(q, e.res)}
        ctx.expect("version.hash", got == ({"Option::None"} if zero else {"Option::Some(arg1.git_hash)"}), f"hash length {'zero' if zero else 'not zero'}", where=fn, detail=str(sorted(got)))


def commit(ctx, p):
    ctx.rule("what is given out is the configured version, with as much of the commit's name as asked for, and all of it when more is asked for than there is")
    fn = C + "project::version::VersionConfig::get"
    q0 = ctx.query(p.find(fn), opaque=lambda k: k.endswith("internal_get"))
    for zero in (True, False):
        def known(q, zero=zero):
            def kn(t):
                x = equality(t)
                return zero is x[2] if x and {q.c(x[0]), q.c(x[1])} == {"arg1.git_hash", "0"} else None
            return kn
        dead = lambda q, zero=zero: lambda e: e.kind == "br" and e.raw == "int" and q.c(e.args[0]) == "arg1.git_hash" and (e.args[1] == 0) != zero
        q = settle(q0, [], known, dead=dead)
        keep = [e for e in q.events(lambda e: e.kind == "call" and e.name.endswith("MaybeUninit::new"))]
        got = {x for e in keep for x in field(q, e.args[0], "hash")}
        if not zero:
            ok = got and all("HEAD" in x and "arg1.git_hash" in x for x in got)
        else:
            ok = got == {"internal_get(arg1, arg2)?.hash"}
        ctx.expect("commit.hash", ok or not keep, f"hash of length {'zero' if zero else 'not zero'}", where=fn, detail=str(sorted(got))[:200])
        for e in q.events(lambda e: e.kind == "call" and re.search(r"Index::index$|split_at$", e.name) and len(e.args) == 2):
            i = q.c(e.args[1])
            if "arg1.git_hash" in i and not zero:
                sized = lambda x: x.kind == "br" and "len(" in q.c(x.args[0]) and "arg1.git_hash" in q.c(x.args[0])
                tr = None if "len(" in i else q.path_avoiding(sized, lambda x, e=e: x is e)
                ctx.expect("commit.length", tr is None, "a length beyond that of the commit's name is no panic", tr or (), e.where(), detail=i[:100])


def files(ctx, p):
    ctx.rule("the files copied to the output are those named, from the root, and the default ones")
    fn = f"<{C}project::files::FilesConfig as core::convert::From<{C}project::files::FilesSectionFile>>::from"
    q0 = ctx.query(p.find(fn))
    ctx.expect("setting", result(q0, "exclude") == {"arg1.exclude"}, "FilesConfig.exclude is what the file says", where=fn)
    I = "arg1.include[*]"
    for slash in (True, False):
        q = settle(q0, [], lambda q: lambda t: slash if re.fullmatch(rf"starts_with\({re.escape(I)}, (47|\"/\")\)", q.c(t)) else None)
        made = [r for t, rs in q.g.cbret.items() if t.a[0].endswith("::map") for r in rs if I in q.c(r)]
        made += [e.args[1] for e in q.events(lambda e: e.kind == "call" and e.name.endswith("Vec::push") and I in q.c(e.args[1]))]
        outs = {text(q, x) for t in made for x in ends(q, t)}
        ctx.expect("files.include", outs == {f"«{I}»" if slash else f"/«{I}»"} and bool(result(q, "include")), f"a file named {'from the root' if slash else 'without a slash'}", where=fn, detail=str(sorted(outs))[:200])
    names = ["/mod.cpp", "/meta.cpp", "/LICENSE", "/logo_ca.paa", "/logo_co.paa"]
    for n in names:
        put = any(f'"{n}"' in q0.c(e.args[1]) or f'"{n}"' in q0.c(e.args[0]) for e in q0.events(lambda e: e.kind == "call" and re.search(r"::(push|extend|extend_from_slice|chain)$", e.name) and len(e.args) == 2))
        ctx.expect("files.default", put, f"{n} is among the files", where=fn, detail=n)
    tr = leaves_early(q0, lambda el: True)
    bad = [el for k, h, el, ev in loop_heads(q0) if PARTIAL.search(el)]
    ctx.expect("files.all", tr is None and not bad, "no file named is left out", tr or bad, fn)
    for e in q0.events(lambda e: e.kind == "call" and re.search(r"::(retain|remove|truncate|pop|clear|drain|swap_remove|split_off|filter|filter_map|dedup_by|dedup_by_key)$", e.name)):
        ctx.expect("files.drop", False, "no file named is left out", where=e.where(), detail=e.name.split("::")[-1])


def pdrive(ctx, p):
    ctx.rule("each choice about the P drive is written under a name that is read back as that choice")
    ser = p.find_impl("Serialize", "PDriveOption", "serialize")
    de = p.find(f"<{C}pdrive::PDriveOption as serde::de::Deserialize<'de>>::deserialize")
    qs, qd = ctx.query(ser), ctx.query(de)
    for v in p.variants(C + "pdrive::PDriveOption"):
        q = settle(qs, [(r"arg1", [v])])
        got = {x for e in q.rets() for x in values(q, e.res)}
        names = {m.group(1) for x in got for m in [re.fullmatch(r'serialize_str\(arg2, "(.*)"\)', x)] if m}
        ctx.expect("pdrive.write", len(names) == 1 and len(got) == 1, f"{v} has one name", where=ser.norm, detail=str(sorted(got))[:200])
        for n in names:
            def known(q, n=n):
                def kn(t):
                    x = equality(t)
                    if x:
                        for a, b in ((x[0], x[1]), (x[1], x[0])):
                            if b.op == "str" and re.match(r"(to_lowercase|to_ascii_lowercase)\(deserialize\(arg1\)\?\)", q.c(a)):
                                return (b.a[0] == n) is x[2]
                    return None
                return kn
            q = settle(qd, [(r"deserialize\(arg1\)", ["Ok"])], known)
            back = {x for e in q.rets() for x in values(q, e.res)}
            ctx.expect("pdrive.read", back == {f"Result::Ok(PDriveOption::{v})"}, f"{v} is read back from {n}", where=de.norm, detail=f"{n} {sorted(back)}"[:200])


def readers(ctx, p):
    ctx.rule("the generated readers of the section files take each setting by its name, and stand in nothing of their own for one left out")
    n = 0
    for b in sorted(p.fns.values(), key=lambda b: b.norm):
        m = re.search(rf"Deserialize<'de> for ({C}[\w:]+)>::deserialize::__(Field)?Visitor.* as serde::de::Visitor<'de>>::visit_(str|map)$", b.norm)
        if not m or m.group(1) not in p.adts:
            continue
        names = [f for f in fields(p, m.group(1)) if f != "meta_path"]
        q0 = ctx.query(b)
        sect = m.group(1).split("::")[-1]
        if m.group(3) == "str":
            n += 1
            for i, f in enumerate(fields(p, m.group(1))):
                if f not in names:
                    continue

                def known(q, f=f):
                    def kn(t):
                        x = equality(t)
                        if x:
                            for a, c in ((x[0], x[1]), (x[1], x[0])):
                                if q.c(a) == "arg2" and c.op == "str":
                                    return (c.a[0] == f) is x[2]
                        return None
                    return kn
                got = {x for q in [settle(q0, [], known)] for e in q.rets() for x in values(q, e.res)}
                ctx.expect("read.name", got == {f"Result::Ok(__Field::__field{i})"}, f"{sect}: {f} is read by its name", where=b.norm, detail=f"{f} {sorted(got)}"[:200])
            continue
        for f in names:
            for x in sorted(re.sub(r'missing_field\("\w+"\)', "missing", x) for x in result(q0, f)):
                ctx.expect("read.default", not re.search(r'(?<!\.)\b(true|false|\d+)\b|"|Option::Some\((?!\{?(Option::None )?next_value|\{?ControlFlow|⟲)', x), f"{sect}: {f} is what was read or nothing", where=b.norm, detail=f"{f} {x}"[:200])
    ctx.expect("readers", n >= 14, "the readers of the sections are found", detail=str(n))


def run(ctx):
    p = ctx.load(["hemtt_common"])
    conversions(ctx, p)
    getters(ctx, p)
    presets(ctx, p)
    chain(ctx, p)
    sources(ctx, p)
    version(ctx, p)
    commit(ctx, p)
    files(ctx, p)
    pdrive(ctx, p)
    readers(ctx, p)
