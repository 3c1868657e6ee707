"""Binarized element encoding."""
import json
from rules import *
from wire import *
from lin import *
import C01
from C01 import Case, E, opaque

META = dict(
    title="Every config element is binarized with its own type code and value",
    statement="In a rapified config every entry is written as its kind code, its own name as a NUL-terminated string and its own payload, in source order: strings and expressions as NUL-terminated text, numbers as little-endian values of their width, arrays as a count of all their items followed by each item's code and value, sub-classes as an offset, external classes and deletions as the name alone. Codes are those the game defines (class 0, value 1 with subtype string 0, float 1, int32 2, array 3, expression 4, int64 6; array 2, external class 3, deletion 4, array append 5 with its flag word), and a class body starts with its parent's name (empty if none) and the count of its entries.",
    over=["inputs"],
    forall="all config trees over every combination of element kinds and values",
    why="the tests binarize a handful of configs; a wrong code or swapped payload for one kind or nesting only shows for configs containing it",
    files=["libs/config/src/rapify", "libs/config/src/model"],
    mech=[("type codes", "libs/config/src/rapify/property.rs property_code, rapified_code"), ("payload writers", "libs/config/src/rapify")],
    technique="automata-based wire-format analysis per variant (language equality of emitted fields over all MIR paths), decision tables of the code functions",
    note="All paths. Widths and offsets are C01; casts of counts to 32 bits are taken as exact.",
)


def lists(g):
    """one spelling for a list of bytes"""
    while True:
        m = re.fullmatch(r"(?:vec!|into_vec|to_vec|from|list|box_new|Vec::from)\((.*)\)", g) or re.fullmatch(r"list(\[.*\])", g)
        if not m:
            break
        g = m.group(1)
    if g.startswith('b"'):
        g = "[" + ", ".join(str(ord(x)) for x in json.loads(g[1:])) + "]"
    return g


def built(q, S, t):
    """text of a returned value; a list built step by step reads like a literal"""
    t = S.follow(t)
    parts = []
    x = t
    while x.op == "out" and x.a[0].op in ("call", "pure") and x.a[1] == 0:
        c = x.a[0]
        if c.a[0].endswith("Vec::push"):
            parts.append([q.c(c.a[1][1])])
        elif re.search(r"Vec::extend_from_slice$|Extend::extend$", c.a[0]):
            l = lists(q.c(S.follow(c.a[1][1])))
            if not (l.startswith("[") and l.endswith("]")):
                return lists(q.c(t))
            parts.append(split_top(l[1:-1]))
        else:
            return lists(q.c(t))
        x = S.follow(c.a[1][0])
    if parts and x.op == "call" and BUFCTOR.search(x.a[0]):
        return "[" + ", ".join(y.strip() for p in reversed(parts) for y in p) + "]"
    return lists(q.c(t))


def results(q):
    S = Sizes(q)
    return {built(q, S, e.res) for n, es in q.g.succ.items() for ev, m in es if ev is not None for e in flat(ev) if e.kind == "ret"}


def table_of(ctx, name, root, rows):
    """rows: [(wanted variants [(canonical text, variant)], result text)]; every row is the only result of its case"""
    for want, res in rows:
        c = Case(ctx, root, [(re.escape(a), [v]) for a, v in want])
        got = results(c.q)
        if name == "kind":
            # the value's own code goes to its payload's (Value.code)
            got = {g.replace("rapified_code(arg1.value@Entry)", f"rapified_code(arg1.value@Entry.0@{want[-1][1]})") for g in got}
        ctx.expect(f"{name}.{'/'.join(v for _, v in want)}", got == {res}, f"{name} of {' '.join(v for _, v in want)} is {res} (code: {sorted(got)})", where=root.norm)


def writes(ctx, name, root, want, spec, what, external=False):
    c = Case(ctx, root, want, external)
    q = c.q

    def lab(e):
        if e.kind != "call" or not e.args:
            return None
        if e.name.endswith("::write_cstring") and c.sink(e.args[0]):
            x = q.c(c.S.follow(e.args[1]))
            return ["NUL"] if x in ('""', "b''") else [f"bytes:{x}", "NUL"]
        if e.name.endswith("::write_compressed_int") and c.sink(e.args[0]):
            return "cint:" + (nocast(q, e.args[1]))
        if e.name.endswith("Rapify::rapify") and c.sink(e.args[1]):
            return "value:" + q.c(e.args[0])
        if re.search(r"Write::write_all$|Write::write$", e.name) and c.sink(e.args[0]):
            t = strip_view(c.S.follow(e.args[1]))
            if t.op == "agg" and t.a[0] == "arr":
                return [f"byte:{q.c(x)}" for x in t.a[3]]
            if t.op in ("bytes", "str"):
                b = t.a[0].encode("latin1") if isinstance(t.a[0], str) else t.a[0]
                return [] if not b else "NUL" if b == b"\0" else [f"byte:{x}" for x in b]
            l = tobytes(q, t)
            if name.startswith("Class.") and not re.match(r"bytes:(property_code\(|name\(|arg1\.parent)", l):
                return None
            return l
        l = write_label(q, e, c.sink)
        if l is None:
            return None
        m = re.match(r"([ui])8:(.*)$", l)
        if m:
            return "NUL" if m.group(2) == "0" else f"byte:{m.group(2)}"
        if name.startswith("Class.") and l.startswith("u32le:"):
            return "u32le:offset"
        return l

    return check_language(ctx, name, q, lab, spec, what)


def nocast(q, t):
    while t.op == "cast" and not re.fullmatch(r"[ui](8|16)", str(t.a[3])) or t.op == "fld" and t.a[2] == "Ok" and t.a[0].op in ("call", "pure") and re.search(r"try_(from|into)$", t.a[0].a[0]):
        t = t.a[1] if t.op == "cast" else t.a[0].a[1][0]
    return q.c(t)


def run(ctx):
    p = ctx.load(["hemtt_config", "hemtt_common"])
    ctx.rule("per kind of element: language of the writes on the output = code, own name, own payload, in order; decision tables of the code functions equal the game's")
    I = lambda ty, m: p.find_impl("Rapify", ty, m)
    # codes
    table_of(ctx, "Str.code", I("Str", "rapified_code"), [([], "0")])
    table_of(ctx, "Expression.code", I("Expression", "rapified_code"), [([], "4")])
    table_of(ctx, "Number.code", I("Number", "rapified_code"), [([("arg1", v)], n) for v, n in (("Float32", "1"), ("Int32", "2"), ("Int64", "6"))])
    code = lambda s: f"rapified_code({s})"
    I_ = I("Item", "rapified_code")
    table_of(ctx, "Item.code", I_, [([("arg1", v)], code(f"arg1.0@{v}")) for v in ("Str", "Number")] + [([("arg1", "Array")], "3")])
    table_of(ctx, "Value.code", I("Value", "rapified_code"), [([("arg1", v)], code(f"arg1.0@{v}")) for v in ("Str", "Number", "Expression")])
    pc = next((f for f in p.fns.values() if f.norm.endswith("::property_code")), None)
    if ctx.expect("property_code", pc is not None, "the kind codes of entries have a home"):
        v = "arg1.value@Entry"
        rows = [([("arg1", "Entry"), (v, k)], f"[1, {code(f'{v}.0@{k}')}]") for k in ("Str", "Number", "Expression")]
        for kind in ("Local", "External"):
            rows.append(([("arg1", "Class"), ("arg1.0@Class", kind)], {"Local": "[0]", "External": "[3]"}[kind]))
        rows.append(([("arg1", "Delete")], "[4]"))
        kinds(ctx, pc, rows)
    # names
    names(ctx)
    # payloads
    for ty in ("Str", "Expression"):
        writes(ctx, f"{ty}.payload", I(ty, "rapify"), [], seq("bytes:arg1.value", "NUL"), f"{ty} is its own text, NUL-terminated")
    for k, w in (("Int32", "i32le"), ("Int64", "i64le"), ("Float32", "f32le")):
        writes(ctx, f"Number.{k}.payload", I("Number", "rapify"), [("arg1", [k])], f"{w}:arg1.value@{k}", f"{k} is its own value, little-endian")
    items = lambda l: seq(f"cint:len({l})", star(f"byte:rapified_code({l}[*])", f"value:{l}[*]"))
    writes(ctx, "Array.payload", I("Array", "rapify"), [], items("arg1.items"), "an array is its item count, then every item's code and value in order")
    for k in ("Str", "Number"):
        writes(ctx, f"Item.{k}.payload", I("Item", "rapify"), [("arg1", [k])], f"value:arg1.0@{k}", "an item is its own payload")
    writes(ctx, "Item.Array.payload", I("Item", "rapify"), [("arg1", ["Array"])], items("arg1.0@Array"), "a nested array is its item count, then every item's code and value in order")
    for k in ("Str", "Number", "Expression", "Array"):
        writes(ctx, f"Value.{k}.payload", I("Value", "rapify"), [("arg1", [k])], f"value:arg1.0@{k}", "a value is its own payload")
    for kind, parent in (("Local", "None"), ("Local", "Some"), ("Root", "None")):
        P = "arg1\\.parent@Local"
        el = f"arg1.properties@{kind}[*]"
        for case, want, ext, x in (
            ("Entry", [(E, ["Entry"])], False, [f"value:{el}.value@Entry"]),
            ("Sub", [(E, ["Class"]), (E + r"\.0@Class", ["Local"])], False, ["u32le:offset"]),
            ("External", [(E, ["Class"]), (E + r"\.0@Class", ["External"])], True, []),
            ("Delete", [(E, ["Delete"])], False, []),
        ):
            w = [("arg1", [kind])] + ([(P, [parent])] if kind == "Local" else []) + want
            head = ["bytes:arg1.parent@Local?.value", "NUL"] if parent == "Some" else ["NUL"]
            writes(ctx, f"Class.{kind}.{parent}.{case}", I("Class", "rapify"), w, seq(*head, f"cint:len(arg1.properties@{kind})", star(f"bytes:property_code({el})", f"bytes:name({el}).value", "NUL", *x), "u32le:offset"), "a class body is its parent's name, its entry count, every entry's code, name and payload in order, and an offset", ext)


def kinds(ctx, pc, rows):
    table_of(ctx, "kind", pc, rows)
    v = "arg1.value@Entry"
    for k, res in (("True", "[5, 1, 0, 0, 0]"), ("False", "[2]")):
        c = Case(ctx, pc, [("arg1", ["Entry"]), (re.escape(v), ["Array"])])
        dead = lambda e: e.kind == "br" and e.raw == "bool" and c.q.c(e.args[0]) == f"{v}.0@Array.expand" and str(e.args[1]) not in (k, {"True": "1", "False": "0"}[k])
        q = restrict(c.q, dead)
        got = results(q)
        ctx.expect(f"kind.array.expand-{k}", got == {res}, f"an array entry with append {k} has the code {res} (code: {sorted(got)})", where=pc.norm)


def names(ctx):
    p = ctx.p
    f = next((f for f in p.fns.values() if re.search(r"model::property::Property>?::name$", f.norm)), None)
    if not ctx.expect("name", f is not None, "entries have a name"):
        return
    for want, res in (([("arg1", ["Entry"])], "arg1.name@Entry"), ([("arg1", ["Delete"])], "arg1.0@Delete"), ([("arg1", ["Class"]), (r"arg1\.0@Class", ["Local"])], "arg1.0@Class.name@Local"), ([("arg1", ["Class"]), (r"arg1\.0@Class", ["External"])], "arg1.0@Class.name@External")):
        q = ctx.query(f)
        w = [(lambda s, k=k: re.fullmatch(k, s) is not None, vs) for k, vs in want]
        for _ in range(3):
            q = restrict(q, variant_dead(q, w))
        got = results(q)
        ctx.expect("name." + "/".join(v for _, vs in want for v in vs), got == {res}, f"the name of this kind of entry is its own ({sorted(got)})", where=f.norm)
