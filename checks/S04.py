"""Private key material."""
from rules import *
from wire import *

META = dict(
    title="Key generation fills every field; public artefacts hold nothing private",
    statement="A generated private key has the requested bit length and authority and every RSA component of one freshly generated key pair in its own field. The public key derived from a private key and a signature made with it carry the private key's authority, length, exponent and modulus in their own fields and never a private component (p, q, dp, dq, qinv, d) except through the signature values themselves, and reading, writing or signing with a key never alters it.",
    over=["inputs"],
    forall="all private keys, PBOs and versions",
    why="swapped or leaked components are invisible to round-trip tests, and generated keys differ on every run",
    files=["libs/signing/src/private.rs", "libs/signing/src/public.rs", "libs/signing/src/signature.rs"],
    mech=[("BIPrivateKey::generate / to_public_key / sign", "libs/signing/src/private.rs"), ("BIPublicKey::write", "libs/signing/src/public.rs")],
    technique="information-flow over value provenance: which private fields each result field and each written byte depends on, on every MIR path",
    note="All paths; the rsa crate's accessors assumed to return what they are named after.",
)

PRIV = "hemtt_signing::private::BIPrivateKey::"
SECRET = ("p", "q", "dp", "dq", "qinv", "d")


def run(ctx):
    ctx.load(["hemtt_signing", "hemtt_pbo", "hemtt_common"])
    ctx.rule("result fields of generate/to_public_key/sign derive from exactly the matching component; no written byte of a public key or signature depends on a private component")
    key = r"(?:mut\()?RsaPrivateKey::new\((?:mut\()?thread_rng\(\)\)?, arg1\)\?\)?"
    q = ctx.query(PRIV + "generate")
    want = {"authority": r"(to_string\()?arg2\)?", "length": "arg1", "exponent": rf"e\({key}\)", "n": rf"n\({key}\)", "p": rf"primes\({key}\)\[0\]", "q": rf"primes\({key}\)\[1\]", "dp": rf"dp\({key}\)\?", "dq": rf"dq\({key}\)\?", "qinv": rf"to_biguint\(qinv\({key}\)\?\)\?|crt_coefficient\({key}\)\?", "d": rf"d\({key}\)"}
    n = 0
    for e in q.rets():
        if is_err(e.res):
            continue
        n += 1
        fs = {k.split(".")[-1]: q.c(v) for k, v in leaf_fields(e.res)}
        for f, rx in want.items():
            s = re.sub(r"primes\((.*)\)\.0", r"primes(\1)[0]", fs.get(f, ""))
            s = re.sub(r"(first|get)\((primes\(.*\))(, (\d))?\)\?", lambda m: f"{m.group(2)}[{m.group(4) or 0}]", s)
            ctx.expect("generate." + f, re.fullmatch(rx, s), f"{f} comes from the generated key's own component ({s[:90]})", where=q.root.norm)
    ctx.expect("generate.reachable", n > 0, "generation can succeed", where=q.root.norm)

    def secrets(q, t, root):
        return sorted({x.a[1] for x in reaches(q.g, t, lambda y: y.op == "fld" and y.a[1] in SECRET and q.c(y.a[0]) == root)})

    for fn, pub in (("to_public_key", ("authority", "length", "exponent", "n")), ("sign", ("authority", "length", "exponent", "n"))):
        q = ctx.query(PRIV + fn, opaque=lambda k: k == "hemtt_signing::generate_hashes")
        n = 0
        for e in q.rets():
            if is_err(e.res):
                for k, v in leaf_fields(e.res):
                    ctx.expect(fn + ".error", not secrets(q, v, "arg1"), "errors carry nothing private", where=q.root.norm)
                continue
            n += 1
            for k, v in leaf_fields(e.res):
                f = k.split(".")[-1]
                sec = secrets(q, v, "arg1")
                s = q.c(v)
                if f in pub:
                    ctx.expect(f"{fn}.{f}", s == f"arg1.{f}", f"{f} is the private key's own {f} ({s[:80]})", where=q.root.norm)
                    ctx.expect(f"{fn}.{f}.public", not sec, f"{f} does not depend on private components {sec}", where=q.root.norm)
                elif f.startswith("sig"):
                    ok = v.op in ("call", "pure") and v.a[0].endswith("modpow") and set(sec) <= {"d"}
                    ctx.expect(f"{fn}.{f}", ok, f"{f} depends on private components only through modular exponentiation by d ({sec}, {s[:70]})", where=q.root.norm)
                elif f != "version":
                    ctx.expect(f"{fn}.{f}", not sec, f"{f} holds nothing private {sec}", where=q.root.norm)
        ctx.expect(fn + ".reachable", n > 0, "can succeed", where=q.root.norm)
    # &self everywhere: keys are never altered by use
    for fn in ("to_public_key", "sign", "write_danger"):
        b = ctx.p.find(PRIV + fn)
        ctx.expect(fn + ".immutable", not b.locals[1][0].startswith("&mut") and "Cell" not in b.locals[1][0], f"{fn} takes the key by shared reference", where=b.norm)
    adt = ctx.p.adt("hemtt_signing::private::BIPrivateKey")
    ctx.expect("no-interior-mutability", "Cell" not in json.dumps(adt) and "Mutex" not in json.dumps(adt), "the key has no interior mutability")
