"""Missing textures and materials of a model."""
import itertools
from rules import *
from lin import *
from coll import *
from logic import *
from P02 import between

META = dict(
    title="A model's missing files are exactly those the workspace does not locate",
    statement="For every face of every LOD, the texture (unless empty or starting with #) and the material (unless empty) are looked for in the workspace under their name with one leading backslash, added when it is not there, and reported as missing exactly when nothing is located. A texture is not missing when the same name with .paa, .tga or .png at its end exchanged (.paa for .tga, the others for .paa) is located. An answer the search cache already has is used, every other answer is put in it, and an error of the lookup is handed on.",
    over=["inputs", "environment", "histories"],
    forall="all models, all workspaces, all states of the cache",
    why="the tests look at two models in workspaces that hold none of the files, so nothing is ever located, cached or exchanged",
    files=["libs/p3d/src/functions/missing.rs"],
    mech=[("P3D::missing", "libs/p3d/src/functions/missing.rs"), ("SearchCache", "libs/p3d/src/functions/missing.rs")],
    technique="decision table over MIR event graphs (every combination of name form, cache answer and lookup result), per-iteration obligations",
    note="What the workspace locates is W02. Names are taken as they are in the model, upper-case extensions are not exchanged. The cache is one for textures and materials.",
)

K = "hemtt_p3d::"
good = lambda e: e.kind == "ret" and not (e.res.op == "agg" and e.res.a[1] == "Err")
OPQ = lambda k: re.search(r"SearchCache::|WorkspacePath::", k) is not None


def run(ctx):
    ctx.load(["hemtt_p3d", "hemtt_workspace", "hemtt_common"])
    p = ctx.p
    fs = [b for b in p.fns.values() if b.norm.endswith("P3D>::missing") and b.norm.startswith(K)]
    f = fs[0] if fs else p.find(K + "functions::missing::<impl hemtt_p3d::P3D>::missing")
    q0 = ctx.query(f, opaque=OPQ)

    ctx.rule("every face of every LOD contributes its texture and its material")
    for n in ("texture", "material"):
        rx = rf"arg1\.lods\[\*\]\.faces\[\*\]\.{n}"
        ok, why = every_iteration(q0, lambda e: e.kind == "call" and re.search(r"::(insert|push|extend|get_or_insert_with)$", e.name) is not None and "SearchCache" not in e.name and any(re.fullmatch(rx, q0.c(a)) for a in e.args[1:]) or e.kind == "br" and atom(q0, e)[1] is True and re.fullmatch(rf"contains\(list\[{rx}\], {rx}\)", atom(q0, e)[0]) is not None, lambda el: el == "arg1.lods[*].faces[*]", good)
        if not ok:
            # collected by an adaptor chain over all faces
            ok = any(re.fullmatch(rx, Canon(q0).elem(e.args[-1])) for e in q0.events() if e.kind == "call" and re.search(r"::(extend|from_iter)$", e.name)) or any(re.fullmatch(rx, Canon(q0).elem(e.args[0])) for e in q0.events() if e.kind == "call" and e.name.endswith("Iterator::collect"))
        ctx.expect(f"faces.{n}", bool(ok), f"the {n} of every face is looked at", where=f.norm, detail=str(why)[:300])
        ok, why2 = every_iteration(q0, lambda e: e.kind == "call" and NEXT.search(e.name) is not None and q0.c(e.args[0]) == "arg1.lods[*].faces", lambda el: el == "arg1.lods[*]", good)
        if any(el == "arg1.lods[*]" and k[0] == "n" for k, _, el, _ in loop_heads(q0)):
            ctx.expect("lods", bool(ok), "every LOD is looked at", where=f.norm, detail=str(why2)[:300])

    ctx.rule("decision table: what is reported and remembered for every combination of name, cache and lookup")
    for kind in ("texture", "material"):
        table(ctx, f, q0, kind)

    ctx.rule("the result is (textures, materials)")
    for e in q0.rets():
        if not good(e):
            continue
        r = e.res.a[3][0]
        r = Sizes(q0).follow(r)
        if r.op == "agg" and len(r.a[3]) == 2:
            for i, n in enumerate(("texture", "material")):
                s = q0.c(r.a[3][i])
                other = "material" if n == "texture" else "texture"
                ctx.expect(f"result.{n}", f".{n}" in s and f".{other}" not in s, f"missing {n}s are part {i} of the result", where=e.where(), detail=s[:200])
        else:
            ctx.expect("result", False, "the result is a pair of lists", where=e.where())

    ctx.rule("the cache returns what was put in it")
    for fn in ("exists", "insert"):
        b = next((x for x in p.fns.values() if x.norm.endswith(f"SearchCache::{fn}")), None)
        if b is None:
            continue
        q = ctx.query(b)
        if fn == "insert":
            put = lambda e: e.kind == "call" and re.search(r"(HashMap|BTreeMap|DashMap)::insert$", e.name) is not None and [q.c(a) for a in e.args[1:]] == ["arg2", "arg3"]
            tr = q.path_avoiding(put, lambda e: e.kind == "ret")
            ctx.expect("cache.insert", tr is None, "the answer is stored under the name", tr or (), b.norm)
        else:
            got = r"get\(.*, arg2\)"
            for n, v in (("known", "Some"), ("unknown", "None")):
                qv = settle(q, [(got, [v])])
                for e in qv.rets():
                    r = qv.c(e.res)
                    ok = re.fullmatch(rf"(?:Option::Some\()?(?:copied\(|cloned\()?{got}\)?\??\)?", r) is not None or v == "None" and r == "Option::None"
                    ctx.expect("cache.exists", ok, "the stored answer for that name is returned", where=e.where(), detail=r[:200])


def table(ctx, f, q0, kind):
    N = rf"(?:filtered<[^<>]*>\()?arg1\.lods\[\*\]\.faces\[\*\]\.{kind}\)?"
    heads = [(k, h, el, ev) for k, h, el, ev in loop_heads(q0) if re.fullmatch(N, el)]
    heads = [x for x in heads if any(e.kind == "call" and e.name.endswith("::locate") for e in between(q0, body_of(q0, x[0], x[1]), x[1]))]
    if not ctx.expect(f"{kind}.loop", bool(heads), f"all {kind}s are looked for", where=f.norm):
        return
    lookups = lambda q: [e for e in q.events() if e.kind == "call" and e.name.endswith("::locate") and re.search(N, q.c(e.args[1]))]
    if not ctx.expect(f"{kind}.lookup", bool(lookups(q0)), f"the {kind} is looked for in the workspace", where=f.norm):
        return
    tex = kind == "texture"
    exts = (".paa", ".tga", ".png", None) if tex else (None,)
    swap = {".paa": ".tga", ".tga": ".paa", ".png": ".paa"}
    X = rf".*{N}.*"
    for slash, ext in itertools.product((True, False), exts):
        base = [(rf"is_empty\({N}\)|eq\({N}, \"\"\)|\(len\({N}\) Eq 0\)", [False]), (rf"starts_with\({N}, (?:92|\"\\\\\\\\\")\)", [slash])]
        if tex:
            base += [(rf"starts_with\({N}, (?:35|\"#\")\)", [False])]
        base += [(rf"ends_with\({X}, \"\{x}\"\)", [x == ext]) for x in (".paa", ".tga", ".png")]
        base += [(rf"strip_suffix\({X}, \"\{x}\"\)", ["Some" if x == ext else "None"]) for x in (".paa", ".tga", ".png")]
        own = ("" if slash else "\\") + "«arg1.lods[*].faces[*]." + kind + "»"
        one = settle(q0, base)
        # the two lookups, told apart by the name they are for
        seen = {}
        for e in lookups(one):
            t = named(one, e.args[1])
            c = one.c(e.args[1])
            if t == own:
                seen.setdefault("own", set()).add(c)
            elif ext and exchanged(t, own, ext, swap[ext], N):
                seen.setdefault("alt", set()).add(c)
            else:
                ctx.expect(f"{kind}.name", False, f"the {kind} is looked for under its own name, and a texture under the name with the other extension", where=e.where(), detail=f"{'with' if slash else 'without'} leading backslash, {ext}: {t}"[:300])
        key = f"{kind}.{'slash' if slash else 'plain'}.{(ext or 'other').lstrip('.')}"
        ctx.expect(key + ".own", "own" in seen, f"the {kind} is looked for under its own name", where=f.norm)
        if ext:
            ctx.expect(key + ".alt", "alt" in seen, f"a {ext} texture is also looked for as {swap[ext]}", where=f.norm)
        if "own" not in seen or ext and "alt" not in seen:
            continue
        ctx_name = lambda cs: "(?:" + "|".join(re.escape(c) for c in cs) + ")"
        for cached, loc, alt in itertools.product((True, False, None), (True, False), (True, False)):
            if cached is not None and (loc or alt) or loc and alt or alt and not ext:
                continue
            want = list(base)
            want += [(rf"exists\(arg3, {X}\)", ["Some" if cached is not None else "None"])]
            if cached is not None:
                want += [(rf"exists\(arg3, {X}\)\?", [cached]), (rf"eq\(exists\(arg3, {X}\), Option::Some\((true|false)\)\)", None)]
                want = [w for w in want if w[1] is not None]
            want += [(rf"locate\(arg2, {ctx_name(seen['own'])}\)\?", ["Some" if loc else "None"])]
            if ext:
                want += [(rf"locate\(arg2, {ctx_name(seen['alt'])}\)\?", ["Some" if alt else "None"])]
            q = settle(q0, want)
            hs = [(k, h) for k, h, el, ev in loop_heads(q) if any(k == x[0] for x in heads)]
            missing = (cached is False) if cached is not None else not (loc or alt)
            case = f"{key}.{'cached' if cached else 'cached-missing' if cached is not None else 'found' if loc else 'exchanged' if alt else 'nowhere'}"
            push = lambda e: e.kind == "call" and re.search(r"::(push|insert|push_back)$", e.name) is not None and "SearchCache" not in e.name and len(e.args) == 2 and any(x in q.c(e.args[1]) for x in (f".{kind}",)) and named(q, e.args[1]) == own
            near = lambda e: e.kind == "call" and re.search(r"::(push|push_back)$", e.name) is not None and len(e.args) == 2 and f"faces[*].{kind}" in q.c(e.args[1])
            keep = lambda e: e.kind == "call" and e.name.endswith("SearchCache::insert") and f"faces[*].{kind}" in q.c(e.args[1])
            right = lambda e: keep(e) and named(q, e.args[1]) == own and truth(q, e.args[2], missing)
            for e in q.events():
                if e.kind == "call" and e.name.endswith("SearchCache::exists") and re.search(N, q.c(e.args[1])):
                    ctx.expect(f"{kind}.cached-name", named(q, e.args[1]) == own, "the cache is asked about the name that is remembered", where=e.where(), detail=named(q, e.args[1])[:200])
            for k, h in hs:
                body = body_of(q, k, h)
                if not any(body(e) for e in q.events()):
                    ctx.expect(case, False, f"the {kind} is looked for", where=f.norm)
                    continue
                end = lambda e, h=h: h(e) or e.kind == "ret" and not (e.res.op == "agg" and e.res.a[1] == "Err")
                inside = between(q, body, h)
                if missing:
                    tr = q.path_avoiding(push, end, start=body)
                    ctx.expect(case, tr is None, f"a {kind} that is not there is reported under its name", tr or (), f.norm, detail=str([named(q, e.args[1]) for e in q.events(near)])[:300])
                else:
                    bad = [e for e in inside if near(e)]
                    ctx.expect(case, not bad, f"a {kind} that is there is not reported", where=bad[0].where() if bad else f.norm)
                if cached is None:
                    tr = q.path_avoiding(right, end, start=body)
                    wrong = [e for e in inside if keep(e) and not right(e)]
                    ctx.expect(case + ".remembered", tr is None and not wrong, "the answer is put in the cache", tr or (), f.norm)
                else:
                    wrong = [e for e in inside if keep(e)]
                    ctx.expect(case + ".stands", not wrong, "an answer in the cache stands", where=wrong[0].where() if wrong else f.norm)
    # left out
    outs = [("empty", [(rf"is_empty\({N}\)|eq\({N}, \"\"\)|\(len\({N}\) Eq 0\)", [True])])]
    if tex:
        outs.append(("procedural", [(rf"is_empty\({N}\)|eq\({N}, \"\"\)|\(len\({N}\) Eq 0\)", [False]), (rf"starts_with\({N}, (?:35|\"#\")\)", [True])]))
    for n, want in outs:
        q = settle(q0, want)
        inner = [e for k, h, el, ev in loop_heads(q) if any(k == x[0] for x in heads) for e in between(q, body_of(q, k, h), h)]
        if n == "empty" and all(re.match(r"filtered<Not\((is_empty\(_\)|eq\(_, \"\"\))\)>", el) for k, h, el, ev in heads):
            inner = []
        bad = [e for e in inner if e.kind == "call" and re.search(r"(::push|::locate|SearchCache::insert)$", e.name) and any(f"faces[*].{kind}" in q.c(a) for a in e.args[1:])]
        ctx.expect(f"{kind}.{n}", not bad, f"a {kind} that is {n} is left out", where=bad[0].where() if bad else f.norm)
        # and the ones after it are still looked at
        for k, h in [(k, h) for k, h, el, ev in loop_heads(q) if any(k == x[0] for x in heads)]:
            body = body_of(q, k, h)
            tr = q.path_avoiding(h, good, start=body)
            ctx.expect(f"{kind}.{n}.goes-on", tr is None, "the others are still looked at", tr or (), f.norm)
    # after any of them the loop goes on
    for k, h, el, ev in heads:
        body = body_of(q0, k, h)
        tr = q0.path_avoiding(h, good, start=body)
        ctx.expect(f"{kind}.all", tr is None, f"no {kind} ends the search", tr or (), f.norm)


def named(q, t):
    """the text of a name, whether or not the names were filtered before"""
    return re.sub(r"filtered<[^<>]*>\((arg1\.lods\[\*\]\.faces\[\*\]\.\w+)\)", r"\1", text(q, t))


def truth(q, t, missing):
    t = Sizes(q).follow(t)
    v = Truth(q).val(t)
    if v is not None:
        return v is (not missing)
    return False


def exchanged(t, own, old, new, N):
    """the text is the own name with its last extension exchanged"""
    if not t.endswith(new) or t.count("«") < 1:
        m = re.fullmatch(rf"«with_extension\(.*{N}.*, \"{new[1:]}\"\)»", t)
        return m is not None
    s = t[: -len(new)]
    o = re.escape(old)
    return re.fullmatch(rf"(?:\\)?«(?:strip_suffix|trim_end_matches)\(.*{N}.*, \"{o}\"\)\??»", s) is not None or re.fullmatch(rf"(?:\\)?«.*{N}.*\[RangeTo\(end:\(len\(.*\) Sub 4\)\)\]»", s) is not None
