"""Every construct that cannot be binarized is reported as an error."""
from rules import *
from wire import *
from lin import *
from coll import *
from C01 import Case

META = dict(
    title="Every config construct that cannot be binarized is reported as an error",
    statement="Analysis visits every element of a config tree - every class at every depth, every entry, every value, every array item, nested arrays included - and runs all lints on each of them, and nothing they report is lost. An invalid value, an invalid array item, an array given to a non-array property and a missing semicolon each always yield at least one code of error severity, from a lint whose default is an enabled error, and errors() and warnings() of the report return exactly the codes of that severity.",
    over=["inputs"],
    forall="all config trees, any nesting and mix of elements, and any project configuration",
    why="the tests hold one fixture per lint at shallow depth; an element kind whose children are no longer visited, or a lost code, only shows for trees of that shape",
    files=["libs/config/src/analyze", "libs/config/src/lib.rs"],
    mech=[("Analyze traversal", "libs/config/src/analyze/mod.rs"), ("error lints", "libs/config/src/analyze/lints/c01_invalid_value.rs, c06_unexpected_array.rs, c08_missing_semicolon.rs"), ("ConfigReport", "libs/config/src/lib.rs")],
    technique="must-contain analysis of result collections over MIR, split by variant; structural induction on the tree",
    note="By induction on the tree. Lint registration in the distributed slice is a linker mechanism outside MIR bodies and is not decided.",
)

OPQ = re.compile(r"LintManager.*::run$|Analyze>?::analyze$|::to_class$")


def cases(q, want):
    w = [(lambda s, k=k: re.fullmatch(k, s) is not None, vs) for k, vs in want]
    for _ in range(3):
        q = restrict(q, variant_dead(q, w))
    return q


def rets(q):
    return [e for n, es in q.g.succ.items() for ev, m in es if ev is not None for e in flat(ev) if e.kind == "ret"]


def visits(ctx, ty, want, kids, name):
    f = ctx.p.find_impl("Analyze", ty, "analyze")
    q = cases(ctx.query(f, opaque=lambda k: bool(OPQ.search(k))), want)
    run = lambda x: f"run(arg5, arg2, arg3, Option::Some(arg4), {x})"
    need = {run("arg1")} | {run(x[1:]) if x.startswith("!") else f"analyze({x}, arg2, arg3, arg4, arg5)" for x in kids}
    rs = rets(q)
    ctx.expect(name + ".returns", bool(rs), "analysis returns", where=f.norm)
    for e in rs:
        got = must(q, e.res)
        got = {g.replace("Class::Root(properties:arg1.0)", "to_class(arg1)").replace("clone(arg1.0)", "arg1.0") for g in got}
        miss = need - got
        ctx.expect(name + ".visits", not miss, f"analysis of {name} reports what the lints find on it and on everything below it (missing: {sorted(miss)[:2]}; have {sorted(map(str, got))[:3]})", where=f.norm)
    tr = leaves_early(q, lambda el: True)
    ctx.expect(name + ".all", tr is None, "no element is skipped", tr or (), f.norm)


def codetype(q, text):
    m = re.search(r"(\w+)::(new|from|\w+)\(|(\w+)\(", text)
    return m


def run(ctx):
    p = ctx.load(["hemtt_config", "hemtt_workspace", "hemtt_common"])
    ctx.rule("for every kind of element, the returned codes contain the lints' codes for it and the analysis of each child, on every path")
    visits(ctx, "Config", [], ["arg1.0[*]", "!to_class(arg1)"], "Config")
    for k in ("Local", "Root"):
        visits(ctx, "Class", [("arg1", [k])], [f"arg1.properties@{k}[*]"], f"Class.{k}")
    visits(ctx, "Class", [("arg1", ["External"])], [], "Class.External")
    visits(ctx, "Property", [("arg1", ["Entry"])], ["arg1.value@Entry"], "Property.Entry")
    visits(ctx, "Property", [("arg1", ["Class"])], ["arg1.0@Class"], "Property.Class")
    for k in ("Delete", "MissingSemicolon"):
        visits(ctx, "Property", [("arg1", [k])], [], f"Property.{k}")
    for k in ("Str", "Number", "Expression", "Array", "UnexpectedArray"):
        visits(ctx, "Value", [("arg1", [k])], [f"arg1.0@{k}"], f"Value.{k}")
    visits(ctx, "Value", [("arg1", ["Invalid"])], [], "Value.Invalid")
    visits(ctx, "Array", [], ["arg1.items[*]"], "Array")
    for k in ("Str", "Number"):
        visits(ctx, "Item", [("arg1", [k])], [f"arg1.0@{k}"], f"Item.{k}")
    visits(ctx, "Item", [("arg1", ["Array"])], ["arg1.0@Array[*]"], "Item.Array")
    visits(ctx, "Item", [("arg1", ["Invalid"])], [], "Item.Invalid")

    ctx.rule("for each construct that cannot be binarized there is a runner that returns a code of error severity on every path where the construct is present, registered by a lint that defaults to an enabled error")
    runners = {}
    for im in p.impls:
        if im["crate"] == "hemtt_config" and im["trait"].endswith("LintRunner") and im["items"].get("run") in p.fns:
            b = p.fns[im["items"]["run"]]
            runners[strip_gen(im["self"])] = (b, str(b.locals[5]))
    lints = {}
    for im in p.impls:
        if im["crate"] == "hemtt_config" and im["trait"].endswith("lint::Lint") and im["items"].get("runners") in p.fns:
            q = ctx.query(p.fns[im["items"]["runners"]])
            txt = " ".join(types(q))
            dc = im["items"].get("default_config")
            lints[im["self"]] = (txt, p.fns.get(dc), im["items"].get("minimum_severity"))
    errsev = severities(ctx)
    for what, ty, want in (
        ("an invalid value", "model::value::Value", [("arg5", ["Invalid"])]),
        ("an invalid array item", "model::array::Item", [("arg5", ["Invalid"])]),
        ("an array given to a non-array property", "model::property::Property", [("arg5", ["Entry"]), (r"arg5\.value@Entry", ["UnexpectedArray"])]),
        ("an array given to a non-array property", "model::value::Value", [("arg5", ["UnexpectedArray"])]),
        ("a missing semicolon", "model::property::Property", [("arg5", ["MissingSemicolon"])]),
    ):
        good = []
        why = []
        for r, (b, lt) in runners.items():
            if ty + "'" not in lt.replace('"', "'") and not re.search(re.escape(ty) + r"\b(?!::)", lt):
                continue
            q = cases(ctx.query(b, opaque=lambda k: bool(re.search(r"Code\w*::new$|::mapping$|::was_macro$|Diagnostic|::generate", k))), want + [("arg4", ["Some"])])
            rs = rets(q)
            ok = bool(rs)
            for e in rs:
                el = members(q, e.res)
                if not el:
                    ok = False
                    why.append(f"{r} may report nothing")
                for x in el:
                    if x not in errsev:
                        ok = False
                        why.append(f"{r} reports {x}, which is not an error")
            if not ok:
                continue
            own = [l for l, (txt, dc, ms) in lints.items() if r in txt.split()]
            if not own:
                why.append(f"{r} is not among its lint's runners")
            for l in own:
                txt, dc, ms = lints[l]
                d = {ctx.query(dc).c(e.res) for e in rets(ctx.query(dc))} if dc else set()
                if all(re.search(r"enabled:true, severity:Severity::Error", x) for x in d) and d and (ms is None or min_is_error(ctx, p.fns.get(ms))):
                    good.append(r)
                else:
                    why.append(f"{l} does not default to an enabled error ({sorted(d)[:1]})")
        key = "reported." + what.replace(" ", "-")
        if what.startswith("an array given"):
            ctx.__dict__.setdefault("_ua", []).append(bool(good))
            if ty.endswith("Property"):
                first = (good, why)
                continue
            good = good or first[0]
            why = first[1] + why
        ctx.expect(key, bool(good), f"{what} always yields an error ({why[:3]})", where="hemtt_config::analyze::lints", detail=f"by {good}")
    # the report
    for m, sev in (("errors", "Error"), ("warnings", "Warning")):
        f = p.find(f"hemtt_config::ConfigReport::{m}")
        q = ctx.query(f)
        ok = False
        for e in rets(q):
            sv = r"severity\(arg1\.codes\[\*\]\)"
            texts = [rf"eq\({sv}, Severity::{sev}\)", rf"eq\(Severity::{sev}, {sv}\)", rf"\({sv} Eq Severity::{sev}\)"]

            def cls(e):
                s = q.c(e.args[0])
                if re.fullmatch(sv, s):
                    return sev == e.args[1] if sev in str(e.args[1]).split("|") and "|" not in str(e.args[1]) else (False if sev not in str(e.args[1]).split("|") else None)
                if any(re.fullmatch(x, s) for x in texts):
                    return bool(e.args[1]) if not isinstance(e.args[1], str) else e.args[1] in ("True", "1")
                return None

            ok = selects(q, e.res, "arg1.codes[*]", cls, texts)
        ctx.expect("report." + m, ok, f"{m}() is exactly the codes of severity {sev}", where=f.norm)
    f = p.find("hemtt_config::parse")
    q = ctx.query(f, opaque=lambda k: bool(re.search(r"Analyze>?::analyze$|parse::config|parse_recovery|LintManager.*::(new|extend)$|get_patches|ChumskyCode", k)))
    seen = False
    for e in q.rets():
        if is_err(e.res):
            continue
        for path, v in leaf_fields(e.res):
            if path.endswith("codes"):
                seen = True
                ctx.expect("report.codes", any(g.startswith("analyze(") for g in must(q, v)), f"the report's codes are those of the analysis ({q.c(v)[:120]})", where=f.norm)
    ctx.expect("report.built", seen, "a parsed config is reported with its codes", where=f.norm)


def types(q):
    out = set()
    for e in rets(q):
        st = [e.res]
        seen = set()
        while st:
            t = st.pop()
            if t in seen:
                continue
            seen.add(t)
            if t.op == "agg":
                out.add(t.a[0])
            if t.op == "phi":
                st.extend(q.g.phi.get(t, ()))
            if t.op == "const":
                out.add(t.a[0])
            st.extend(subterms(t))
    return out


def members(q, t):
    """types of the codes certainly in the list: every element is one of these, and there is one"""
    S = Sizes(q)
    t = S.follow(t)
    while t.op in ("call", "pure") and t.a[1] and re.search(r"into_vec|to_vec|collect$|into$|from$", t.a[0]):
        t = S.follow(t.a[1][0])
    els = []
    if t.op == "agg" and t.a[0] == "arr":
        els = list(t.a[3])
    while t.op == "out" and t.a[0].op in ("call", "pure") and t.a[1] == 0 and re.search(r"::push$", t.a[0].a[0]):
        els.append(t.a[0].a[1][1])
        t = S.follow(t.a[0].a[1][0])
    if not els and t.op == "phi":
        ms = [members(q, v) for v in S.edges(t).values() if v is not t]
        return set().union(*ms) if ms and all(ms) else set()
    out = set()
    for x in els:
        st = [x]
        n = 0
        while st and n < 300:
            n += 1
            y = st.pop()
            if y.op == "cast":
                st.append(y.a[1])
            elif y.op == "phi":
                st.extend(v for v in S.edges(y).values())
            elif y.op in ("call", "pure") and re.search(r"(Arc|Box|Rc)::(new|from)$|convert::(Into::into|From::from)$", y.a[0]):
                st.extend(y.a[1])
            elif y.op in ("call", "pure"):
                out.add(y.a[0].rsplit("::", 1)[0])
            elif y.op == "agg":
                out.add(y.a[0])
            elif y.op in ("out", "upd", "with"):
                st.append(obj(y, q.g))
            else:
                out.add("?" + y.op)
    return out


def severities(ctx):
    """types whose Code::severity is Error"""
    p = ctx.p
    r = set()
    for im in p.impls:
        if not im["trait"].endswith("::Code"):
            continue
        f = im["items"].get("severity")
        if f is None:
            dflt = default_severity(ctx)
            if dflt:
                r.add(strip_gen(im["self"]))
        elif f in p.fns and severity_is(ctx, p.fns[f]):
            r.add(strip_gen(im["self"]))
    return r


def severity_is(ctx, f):
    q = ctx.query(f)
    rs = {q.c(e.res) for e in rets(q)}
    return rs == {"Severity::Error"}


def default_severity(ctx):
    if not hasattr(ctx, "_ds"):
        f = next((f for f in ctx.p.fns.values() if f.norm.endswith("reporting::Code::severity") or f.norm.endswith("::Code::severity")), None)
        ctx._ds = f is not None and severity_is(ctx, f)
        ctx.expect("default-severity", ctx._ds, "a code is an error unless it says otherwise", where=f.norm if f else "")
    return ctx._ds


def min_is_error(ctx, f):
    if f is None:
        return True
    q = ctx.query(f)
    return {q.c(e.res) for e in rets(q)} == {"Severity::Error"}
