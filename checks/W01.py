"""The lint manager: registration rules and what a run covers."""
from rules import *
from wire import *
from lin import *
from coll import *
from C03 import cases, rets

META = dict(
    title="Lint configuration is enforced and every enabled lint runs with it",
    statement="The lint manager registers lints only when none of them is already registered, configured below its minimum severity, or configured off while its minimum severity is error; otherwise it reports an error for it and registers nothing. A run reports everything that every runner of every registered lint or group finds, using exactly the lint's default configuration overlaid with the enabled, severity and options the project sets for that lint, and runs no lint which that configuration disables.",
    over=["inputs"],
    forall="all sets of lints and groups, and all project lint configurations",
    why="tests register two or three stub lints; an override that is dropped or applied to the wrong lint, or a lint skipped, depends on which lints are configured together",
    files=["libs/workspace/src/lint", "libs/common/src/config/project/lint.rs"],
    mech=[("LintManager", "libs/workspace/src/lint/mod.rs"), ("LintConfigOverride", "libs/common/src/config/project/lint.rs")],
    technique="per-iteration path obligations and must-contain result analysis over inlined MIR; field-wise overlay decided per case",
    note="Severity order is the library's; the distributed slices of lints are filled by the linker and not decided here.",
)

M = "hemtt_workspace::lint::LintManager::"
OPQ = re.compile(r"LintConfigOverride::apply$|LintManager.*::check$")


def truth(e):
    """(term, polarity) of a boolean branch with negations removed"""
    if e.kind != "br" or not isinstance(e.args[1], bool):
        return None
    t, v = e.args[0], e.args[1]
    while t.op == "un" and t.a[0] == "Not":
        t, v = t.a[1], not v
    return t, v


def eqpair(q, e):
    """(text, text, equal?) established by a branch"""
    tv = truth(e)
    if not tv:
        return None
    t, v = tv
    if t.op == "pure" and t.a[0] in ("eq", "ne"):
        x, y, k = *t.a[1], t.a[0] == "eq"
    elif t.op == "bin" and t.a[0] in ("Eq", "Ne"):
        x, y, k = t.a[1], t.a[2], t.a[0] == "Eq"
    else:
        return None
    return q.c(x), q.c(y), v is k


def conf(L):
    return (f"apply(get(arg1.configs, ident({L}))?, default_config({L}))", f"default_config({L})", f"get(arg1.configs, ident({L}))")


def run(ctx):
    p = ctx.load(["hemtt_workspace", "hemtt_common"])
    # ---- registration
    ctx.rule("check: each iteration over the given lints establishes the negation of each of the three objections or adds an error; nothing else adds one; Ok only with no error")
    f = M + "check"
    q = ctx.query(f, opaque=lambda k: k.endswith("LintConfigOverride::apply"))
    L = "arg2[*]"
    CF, _, G = conf(L)
    dup = rf"any\(arg1\.lints, closure=>(eq\(ident\(arg1\.lints\[\*\]\), ident\({re.escape(L)}\)\)|eq\(ident\({re.escape(L)}\), ident\(arg1\.lints\[\*\]\)\))\)"

    def c1(e):
        tv = truth(e)
        if tv and re.fullmatch(dup, q.c(tv[0])):
            return tv[1]
        return None

    def none(e):
        return e.kind == "br" and e.raw == "variant" and q.c(e.args[0]) == G and e.args[1] == "None"

    def c2(e):
        if none(e):
            return False
        tv = truth(e)
        if not tv:
            return None
        t, v = tv
        if t.op in ("pure", "call") and t.a[0].split("::")[-1] in ("lt", "le", "gt", "ge") and len(t.a[1]) == 2:
            op, x, y = t.a[0].split("::")[-1], q.c(t.a[1][0]), q.c(t.a[1][1])
        elif t.op == "bin" and t.a[0] in ("Lt", "Le", "Gt", "Ge"):
            op, x, y = t.a[0].lower(), q.c(t.a[1]), q.c(t.a[2])
        else:
            return None
        s, m = CF + ".severity", f"minimum_severity({L})"
        if (x, y) == (s, m):
            return {"lt": v, "ge": not v}.get(op)
        if (x, y) == (m, s):
            return {"gt": v, "le": not v}.get(op)
        return None

    def enabled(e):
        tv = truth(e)
        return tv[1] if tv and q.c(tv[0]) == CF + ".enabled" else None

    def minerr(e):
        r = eqpair(q, e)
        if r and {r[0], r[1]} == {f"minimum_severity({L})", "Severity::Error"}:
            return r[2]
        if e.kind == "br" and e.raw == "variant" and q.c(e.args[0]) == f"minimum_severity({L})":
            return e.args[1] == "Error" if "Error" in e.args[1].split("|") and "|" not in e.args[1] else (None if "Error" in e.args[1].split("|") else False)
        return None

    bad = [e for e in q.rets() if is_err(e.res)]
    okret = lambda e: e.kind == "ret" and not is_err(e.res)
    lists = {obj(e.res.a[3][0], q.g) for e in bad if e.res.op == "agg"}
    push = lambda e: e.kind == "call" and re.search(r"::(push|push_back|insert|extend)$", e.name) is not None and obj(e.args[0], q.g) in lists
    elem = lambda el: el == L
    ctx.expect("check.rejects", bool(bad) and len(lists) == 1, "rejection returns the collected errors", where=f)
    for name, neg in (("duplicate", lambda e: c1(e) is False), ("severity", lambda e: c2(e) is False), ("disabled", lambda e: none(e) or enabled(e) is True or minerr(e) is False)):
        r, why = every_iteration(q, lambda e: neg(e) or push(e), elem, lambda e: e.kind == "ret")
        ctx.expect("check." + name, r, f"every lint with a {name} objection adds an error", why[0][2] if not r and why else (), f)
    for k, head, el, ev in loop_heads(q):
        if not elem(el):
            continue
        for extra in (lambda e: enabled(e) is False, lambda e: minerr(e) is True):
            tr = q.path_avoiding(lambda e: c1(e) is True or c2(e) is True or extra(e), push, start=head)
            ctx.expect("check.false-rejection", tr is None, "an error is added only for a lint with an objection", tr or (), f)
    tr = leaves_early(q, elem)
    ctx.expect("check.all", tr is None, "no lint is left unchecked", tr or (), f)

    def empty(e):
        tv = truth(e)
        if not tv:
            return False
        t, v = tv
        if t.op in ("pure", "call") and t.a[0].endswith("is_empty"):
            return v is True and obj(t.a[1][0], q.g) in lists
        r = eqpair(q, e)
        return False

    tr = q.path_avoiding(empty, okret)
    ctx.expect("check.ok", tr is None, "Ok only when there is no error", tr or (), f)
    tr = q.path_avoiding(empty, push, start=empty)
    tr = None
    ctx.rule("push, extend, push_group: the manager changes only after check accepted exactly the lints that are added, and then all of them are")
    for fn, lints, into in (("push", r"\[arg2\]", "lints"), ("extend", "arg2", "lints"), ("push_group", "arg2", "groups")):
        q = ctx.query(M + fn, opaque=lambda k: bool(OPQ.search(k)))
        chk = lambda e: e.kind == "call" and e.name.endswith("LintManager::check") and q.c(e.args[0]) == "arg1" and re.fullmatch(rf"list{lints}|(clone\()?{lints}\)?", q.c(e.args[1]))
        isok = lambda e: e.kind == "br" and e.args[1] == "Ok" and re.fullmatch(rf"(map_err\()?check\(arg1, (list)?(clone\()?{lints}\)?\).*", q.c(e.args[0]))
        n = 0
        for e in rets(q):
            st = (e.raw or {}).get(1)
            if is_err(e.res):
                ctx.expect(f"{fn}.untouched", st is None or q.c(st) == "arg1", f"{fn} leaves the manager alone when it refuses ({q.c(st)[:100] if st else ''})", where=M + fn)
                continue
            n += 1
            s = q.c(st) if st is not None else ""
            if into == "lints":
                good = re.fullmatch(rf"arg1\{{lints:=append\(arg1\.lints, (\*(list)?{lints}\[\*\]|arg2)\)\}}", s)
            else:
                good = s == "arg1{groups:=append(arg1.groups, (arg2, arg3))}"
            ctx.expect(f"{fn}.adds", bool(good), f"{fn} adds every given lint ({s[:120]})", where=M + fn)
        tr = q.path_avoiding(chk, lambda e: e.kind == "call" and re.search(r"::(extend|push|append|insert)$", e.name) and q.c(e.args[0]).startswith("arg1."))
        ctx.expect(f"{fn}.checked", n > 0 and tr is None, f"{fn} checks the lints first", tr or (), M + fn)
        tr = q.path_avoiding(isok, okret)
        ctx.expect(f"{fn}.accepted", tr is None, f"{fn} succeeds only when they are accepted", tr or (), M + fn)
    q = ctx.query(M + "new")
    for e in rets(q):
        fs = dict(leaf_fields(e.res))
        got = {k.split(".")[-1]: q.c(v) for k, v in fs.items()}
        ctx.expect("new", got.get("configs") == "arg1" and all(re.search(r"^list\[\]$|::new\(\)$|^\[\]$", got.get(k, "")) for k in ("lints", "groups")), f"a new manager is empty and keeps the configuration ({got})", where=M + "new")
    # ---- running
    ctx.rule("run: with the configuration (default, or the override of its own identifier applied to the default) enabled, the result contains every runner's codes for every lint; no runner is reached without passing the enabled branch")
    f = M + "run"
    q0 = ctx.query(f, opaque=lambda k: bool(OPQ.search(k)))
    for L, what in (("arg1.lints[*]", "lint"), ("arg1.groups[*].0[*]", "group")):
        A, D, G = conf(L)
        for label, want, exact in (("configured", "Some", A), ("default", "None", D)):
            q = cases(q0, [(re.escape(G), [want])])
            S = Sizes(q)

            def cls(e):
                tv = truth(e)
                if not tv or tv[0].op != "fld" or tv[0].a[1] != "enabled":
                    return None
                return tv[1] if q.c(S.follow(tv[0].a[0])) == exact else None

            runcall = lambda e: e.kind == "call" and e.name.endswith("AnyLintRunner::run")
            runners = lambda e: e.kind == "call" and e.name.endswith("Lint::runners") and q.c(e.args[0]) == L
            isput = lambda e: e.kind == "call" and is_put(q, e, L)
            el = lambda x: x == L
            if what == "lint":
                sites = [e for e in q.events() if runcall(e)]
            else:
                sites = [e for e in q.events() if isput(e)]
                picks = []
                for e in q.events():
                    if e.kind == "call" and e.name.endswith("AnyLintGroupRunner::run"):
                        o = obj(e.args[2], q.g)
                        while o.op in ("call", "pure") and o.a[1] and PASS.search(o.a[0]):
                            o = obj(o.a[1][0], q.g)
                        if o.op == "call" and o.a[0].endswith("filter_map"):
                            picks.append((e, o))
                if picks and not sites:
                    for e, o in picks:
                        c = chosen(q, o, cls)
                        ctx.expect(f"run.group.{label}", Canon(q).elem(o.a[1][0]) == L and c == {f"(ident({L}), {exact})"}, f"a group is given the {label} configuration of exactly its enabled lints ({c})", where=e.where())
                    continue
            ctx.expect(f"run.{what}.{label}.reached", bool(sites), f"{what}s are run", where=f)
            for e in sites:
                c = q.c(S.follow(e.args[2]))
                ctx.expect(f"run.{what}.{label}", c == exact, f"a {what} uses its {label} configuration ({c[:160]})", where=e.where())
            act = runcall if what == "lint" else isput
            for k, head, elt, ev in loop_heads(q):
                if elt == L:
                    tr = q.path_avoiding(lambda e: cls(e) is True, act, start=body_of(q, k, head))
                    ctx.expect(f"run.{what}.{label}.disabled", tr is None, f"a disabled {what} is not run", tr or (), f)
            r, why = every_iteration(q, lambda e: cls(e) is False or (runners(e) if what == "lint" else isput(e)), el, lambda e: e.kind == "ret")
            ctx.expect(f"run.{what}.{label}.enabled", r, f"every enabled {what} is run", why[0][2] if not r and why else (), f)
    grun = lambda e: e.kind == "call" and e.name.endswith("AnyLintGroupRunner::run")

    def nothing(e):
        tv = truth(e)
        if tv and tv[0].op in ("pure", "call") and tv[0].a[0].endswith("is_empty"):
            return tv[1] is True
        return tv is not None and re.search(r"len\(.*(Eq 0|Lt 1)\)$|eq\(.*len\(.*, 0\)$", q0.c(tv[0])) is not None and tv[1] is True

    r, why = every_iteration(q0, lambda e: grun(e) or nothing(e), lambda x: x == "arg1.groups[*]", lambda e: e.kind == "ret")
    ctx.expect("run.group.called", r, "every group with an enabled lint is run", why[0][2] if not r and why else (), f)
    # what the run returns
    S = Sizes(q0)
    for e in rets(q0):
        t = e.res
        got = reported(q0, t)
        lint = [g for g in got if re.fullmatch(r"run\(runners\(arg1\.lints\[\*\]\)\[\*\], arg3, .*, arg4, arg5, arg2\)", g)]
        ctx.expect("run.lints", bool(lint), f"the run reports what the runners of every lint find ({[g[:90] for g in got]})", where=f)
        grp = [g for g in got if re.fullmatch(r"run\(arg1\.groups\[\*\]\.1, arg3, .*, arg4, arg5, arg2\)", g)]
        ctx.expect("run.groups", bool(grp), f"the run reports what every group finds ({[g[:90] for g in got]})", where=f)
    tr = leaves_early(q0, lambda el: True)
    ctx.expect("run.all", tr is None, "no lint is skipped", tr or (), f)
    # ---- the typed runner behind the object
    for tr_ in ("AnyLintRunner", "AnyLintGroupRunner"):
        g = next((im["items"]["run"] for im in p.impls if im["trait"].endswith("lint::" + tr_) and im["self"] == "T"), None)
        if g is None:
            raise Anchor(f"blanket {tr_} impl")
        q = ctx.query(p.fns[g])
        dc = [e for e in q.events() if e.kind == "call" and e.name.endswith("downcast_ref")]
        ctx.expect(f"{tr_}.target", bool(dc) and all(q.c(e.args[0]) == "arg5" for e in dc), "the target's type decides", where=g)
        q = cases(q, [(r"downcast_ref\(arg5\)", ["Some"])])
        for e in rets(q):
            c = q.c(Sizes(q).follow(e.res))
            ctx.expect(f"{tr_}.run", re.fullmatch(r"run\(arg1, arg2, arg3, arg4, downcast_ref\(arg5\)\?, arg6\)", c) is not None, f"the runner gets what the manager passes and its codes are returned ({c[:140]})", where=g)
    # ---- configuration
    ctx.rule("apply: each of enabled and severity is the override's when present and the default's otherwise; options are the default's extended by the override's; the file forms map to those fields")
    f = p.find("hemtt_common::config::project::lint::LintConfigOverride::apply")
    q0 = ctx.query(f)
    for fld in ("enabled", "severity"):
        for want, exact in (("Some", rf"arg1\.{fld}\?"), ("None", rf"arg2\.{fld}")):
            q = cases(q0, [(rf"arg1\.{fld}", [want])])
            for e in rets(q):
                v = field(q, e.res, fld)
                ctx.expect(f"apply.{fld}.{want}", v is not None and (re.fullmatch(exact, v) is not None or v == f"unwrap_or(arg1.{fld}, arg2.{fld})"), f"{fld} with the override {'given' if want=='Some' else 'absent'} ({v})", where=f.norm)
    for e in rets(q0):
        v = field(q0, e.res, "options")
        ctx.expect("apply.options", merges(q0, r".*arg2.*\.options|arg2\.options|mut\(arg2\.options\)", r"arg1\.options") and "arg2" in v and "arg1" not in v.split("append(")[0].replace("arg1.enabled", "").replace("arg1.severity", ""), f"options are merged, the override's last ({v})", where=f.norm)
    f = p.find_impl("From", "LintConfigOverride", "from")
    q0 = ctx.query(f)
    for want, ex in (("Enabled", ("Option::Some(arg1.0@Enabled)", "Option::None", False)), ("Severity", ("Option::None", "Option::Some(arg1.0@Severity)", False)), ("Full", ("arg1.0@Full.enabled", "arg1.0@Full.severity", True))):
        q = cases(q0, [("arg1", [want])])
        for e in rets(q):
            got = (field(q, e.res, "enabled"), field(q, e.res, "severity"))
            o = field(q, e.res, "options")
            ctx.expect(f"form.{want}", got == ex[:2] and ((o == "arg1.0@Full.options") if ex[2] else bool(re.search(r"(new|default)\(\)$", o or ""))), f"the {want} form of a lint setting ({got}, {o})", where=f.norm)
    f = p.find_impl("From", "LintGroupConfig", "from")
    q = ctx.query(f)
    for e in rets(q):
        for s in ("config", "sqf", "stringtables"):
            v = field(q, e.res, s) or ""
            x = rf"(\{{Default::default\(\)\x00arg1\.{s}\?\}}|\{{arg1\.{s}\?\x00.*default\(\)\}}|unwrap_or_default\(arg1\.{s}\))"
            ctx.expect(f"section.{s}", re.fullmatch(rf"collect\(map\(\({x}\[\*\]\.0, {x}\[\*\]\.1\)\)\)", v) is not None, f"the {s} lint settings come from the {s} section ({v[:160]})", where=f.norm)
    f = p.find("hemtt_common::config::project::lint::LintGroupConfig::is_empty")
    for s in ("config", "sqf", "stringtables"):
        q = cases(ctx.query(f), [(rf"is_empty\(arg1\.{s}\)", [False])])
        vals = {q.c(Sizes(q).follow(e.res)) for e in rets(q)}
        ctx.expect(f"empty.{s}", all(v in ("False", "false", "0", f"is_empty(arg1.{s})") or v.startswith("{") and "1" not in v.replace("arg1", "") and "True" not in v for v in vals), f"settings with {s} lints are not empty ({vals})", where=f.norm)


def is_put(q, e, L):
    return e.name.endswith("HashMap::insert") and q.c(e.args[1]) == f"ident({L})"


def reported(q, t):
    """texts of the lists whose elements all reach t through chain, collect and flat_map"""
    out = []
    seen = set()
    st = [t]
    S = Sizes(q)
    while st:
        x = S.follow(st.pop())
        if x in seen:
            continue
        seen.add(x)
        if x.op == "phi":
            st.extend(v for v in S.edges(x).values())
        elif x.op in ("call", "pure"):
            last = x.a[0].split("::")[-1]
            if last == "chain":
                st.extend(x.a[1])
            elif last in ("flat_map", "map"):
                st.extend(q.g.cbret.get(x, ()))
            elif PASS.search(x.a[0]) and x.a[1]:
                st.append(x.a[1][0])
            else:
                out.append(q.c(x))
        elif x.op == "out" and x.a[0].op in ("call", "pure"):
            c, i = x.a
            if i == 0 and GROW.search(c.a[0]):
                st.extend(c.a[1][:2])
            else:
                st.append(c.a[1][i])
        elif x.op == "agg":
            st.extend(x.a[3])
        else:
            out.append(q.c(x))
    return out
