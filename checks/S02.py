"""Signature verification."""
from rules import *
from wire import *

META = dict(
    title="Verification succeeds only for the key's own signature of this exact PBO",
    statement="BIPublicKey::verify reports success only when the signature's authority equals the key's, the PBO's files are in ascending order of lower-cased name, and each of the three hashes recomputed from the PBO (with the signature's version and the key's length) equals the corresponding signature value raised to the key's exponent modulo the key's modulus. Nothing carried inside the signature other than its three values and version can make a check succeed, and every failed comparison is reported as an error.",
    over=["inputs"],
    forall="all keys, signatures and PBOs, including signatures built by an attacker",
    why="tests verify a few honest signatures and one or two tampered ones; a check that is skipped or compares the wrong pair passes them all",
    files=["libs/signing/src/public.rs", "libs/pbo/src/read.rs"],
    mech=[("BIPublicKey::verify", "libs/signing/src/public.rs"), ("ReadablePbo::is_sorted", "libs/pbo/src/read.rs")],
    technique="dominance of success by every required comparison (path queries with branch polarity over inlined MIR, operands identified by value provenance)",
    note="All paths of verify; the three hashes themselves are S03.",
)

V = "hemtt_signing::public::BIPublicKey::verify"


def compared(q, e, ok):
    """does this branch establish equality of a pair accepted by ok(textA, textB)?"""
    if e.kind != "br" or not isinstance(e.args[1], bool):
        return False
    t, v = e.args[0], e.args[1]
    while t.op == "un" and t.a[0] == "Not":
        t, v = t.a[1], not v
    if t.op == "pure" and t.a[0] in ("eq", "ne"):
        eq, x, y = t.a[0] == "eq", *t.a[1]
    elif t.op == "bin" and t.a[0] in ("Eq", "Ne"):
        eq, x, y = t.a[0] == "Eq", t.a[1], t.a[2]
    else:
        return False
    if v is not eq:
        return False
    return pairs(q, x, y, ok)


def pairs(q, x, y, ok):
    x, y = obj(x, q.g), obj(y, q.g)
    if ok(q.c(x), q.c(y)) or ok(q.c(y), q.c(x)):
        return True
    if x.op == "agg" and y.op == "agg" and len(x.a[3]) == len(y.a[3]):
        return any(pairs(q, a, b, ok) for a, b in zip(x.a[3], y.a[3]))
    # whole-tuple comparison: hashes()? against (a, b, c)
    for a, b in ((x, y), (y, x)):
        if b.op == "agg" and b.a[0] in ("tup", "arr") and a.op != "agg":
            s = q.c(a)
            if any(ok(f"{s}.{i}", q.c(z)) for i, z in enumerate(b.a[3])):
                return True
    return False


def run(ctx):
    ctx.load(["hemtt_signing", "hemtt_pbo", "hemtt_common"])
    ctx.rule("every path of verify to Ok passes a branch establishing: authority equality; the sortedness loop; and, for i in 1..3, equality of the i-th recomputed hash with modpow(sig_i, key exponent, key modulus)")
    q = ctx.query(V, opaque=lambda k: k == "hemtt_signing::generate_hashes")
    okret = lambda e: e.kind == "ret" and not is_err(e.res)
    tr = q.path_avoiding(lambda e: compared(q, e, lambda a, b: a == "arg1.authority" and b == "arg3.authority"), okret)
    ctx.expect("authority", tr is None, "success requires the authorities to be equal", tr or (), V)
    GH = r"generate_hashes\((?:mut\()?arg2\)?, arg3\.version, arg1\.length\)\?"
    for i in (1, 2, 3):
        def ok(a, b, i=i):
            return re.fullmatch(GH + rf"\.{i-1}", a) and b in (f"modpow(arg3.sig{i}, arg1.exponent, arg1.n)",)
        tr = q.path_avoiding(lambda e: compared(q, e, ok), okret)
        ctx.expect(f"hash{i}", tr is None, f"success requires recomputed hash {i} to equal signature value {i} opened with the key", tr or (), V)
    # the order of the files
    nexts = {e.res for e in q.events() if e.kind == "call" and NEXT.search(e.name)}
    low = lambda t: t.op in ("pure", "call") and t.a[0].endswith(("to_lowercase", "to_ascii_lowercase"))

    def role(t):
        """prev / cur / ? : which of two neighbouring headers a lower-cased name comes from"""
        if not low(t) or not re.search(r"arg2\)?\.headers.*\.filename\)$", q.c(t)):
            return "?"
        t = t.a[1][0]
        while t.op == "fld" and not (t.a[0].op == "call" and t.a[0] in nexts):
            b = t.a[0]
            if t.a[1] in ("0", "1") and "zip" in q.c(T("fld", b, "9", "")):
                return "prev" if t.a[1] == "0" else "cur"
            if b.op == "agg":
                break
            t = b
            if t.op in ("phi", "idx"):
                break
        if t.op in ("pure", "call") and t.a[0].endswith("index"):
            t = T("idx", *t.a[1])
        if t.op == "idx":
            i = t.a[1]
            if i.op == "int":
                return "prev" if i.a[0] == 0 else "cur"
            if i.op == "bin" or (i.op == "fld" and i.a[0].op == "bin"):
                o = i if i.op == "bin" else i.a[0]
                return "prev" if o.a[0].startswith("Sub") else "next"
            return "at"
        if t.op == "phi":
            return "prev" if len(reaches(q.g, t, lambda x: x.op == "fld" and x.a[0] in nexts)) >= 2 else "?"
        if t.op == "fld" and t.a[0] in nexts:
            return "cur"
        if t.op == "elem":
            return {"0": "prev", "1": "cur"}.get(str(t.a[1]) if len(t.a) > 1 else "", "?")
        return "?"

    def established(t, v):
        """None: not about neighbouring names; else the relation prev R cur it establishes"""
        r = relation(t, v)
        if r is None:
            return None
        x, rel, y = r
        rx, ry = role(x), role(y)
        if {rx, ry} == {"at", "next"}:
            rx, ry = ({"at": "prev", "next": "cur"}[z] for z in (rx, ry))
        if {rx, ry} == {"at", "prev"}:
            rx, ry = ({"at": "cur", "prev": "prev"}[z] for z in (rx, ry))
        if (rx, ry) == ("prev", "cur"):
            return rel
        if (rx, ry) == ("cur", "prev"):
            return SWAP[rel]
        return None

    def full(el):
        """the iterated sequence reaches every neighbouring pair of files"""
        if re.search(r"Range", el):
            m = re.search(r"Range\w*\(start:(\d+), end:(.*?)\)(\[\*\])?$", el)
            if not m:
                return False
            n = re.fullmatch(r"(\()?(Vec::)?len\((.*headers.*?)\)( Sub\w* (\d+)\)(\.0)?)?", m.group(2))
            return n is not None and int(m.group(1)) <= 1 and int(n.group(5) or 0) <= 1 - int(m.group(1))
        return not PARTIAL.search(re.sub(r"skip\(([^()]|\([^()]*\))*, 1\)", "all", el))

    fine = lambda e: e.kind == "br" and established(e.args[0], e.args[1]) == "<="

    def whole(e):
        """a library adaptor that applies the comparison to every neighbouring pair"""
        if e.kind != "br" or not isinstance(e.args[1], bool):
            return False
        t, v = e.args[0], e.args[1]
        while t.op == "un" and t.a[0] == "Not":
            t, v = t.a[1], not v
        if t.op != "call" or "headers" not in q.c(t.a[1][0]):
            return False
        last = t.a[0].split("::")[-1]
        rs = q.g.cbret.get(t, ())
        if last == "any" and v is False:
            return bool(rs) and all(established(r, True) == ">" for r in rs)
        if last == "all" and v is True:
            return bool(rs) and all(established(r, True) == "<=" for r in rs)
        if last.startswith("is_sorted_by") and v is True:
            return bool(rs) and (all(low(r) and ".filename" in q.c(r) for r in rs) if last.endswith("key") else all(established(r, True) == "<=" for r in rs))
        return False

    if any(whole(e) for e in q.events()):
        tr = q.path_avoiding(whole, okret)
        ctx.expect("sorted", tr is None, "success requires every adjacent pair of names to be in order", tr or (), V)
    else:
        elem = lambda el: "headers" in el and full(el)
        r, why = every_iteration(q, fine, elem, okret)
        ctx.expect("sorted", r, "success requires every adjacent pair of names to be in ascending order (previous against current)", why[0][2] if not r and why else (), V)
        heads = [h for k, h, el, ev in loop_heads(q) if elem(el) and q.path_avoiding(lambda e: False, fine, start=h) is not None]
        tr = q.path_avoiding(lambda e: any(h(e) for h in heads) or fine(e), okret)
        ctx.expect("sorted-reached", tr is None, "the order is examined before success", tr or (), V)
    # an error result is never turned into success, and success is reachable
    ctx.expect("reachable", any(okret(e) for e in q.events()), "success is reachable for honest signatures", where=V)
    for e in q.rets():
        if e.res.op != "agg":
            ctx.bad("opaque-result", f"verify returns a result the analysis cannot see ({q.c(e.res)[:100]})", where=e.where())
