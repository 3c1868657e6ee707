"""Bit-provenance domain: each bit of a machine integer is 0, 1, a named input bit, or unknown."""
from engine import *

W = {"u8": 8, "u16": 16, "u32": 32, "u64": 64, "usize": 64, "i8": 8, "i16": 16, "i32": 32, "i64": 64, "isize": 64}


def var(name, n):
    return [(name, i) for i in range(n)]


def const(v, n):
    return [(v >> i) & 1 for i in range(n)]


def ev(t, env, n=None):
    """bits (least significant first) of term t; env maps terms to bit lists or ints; None when out of the domain"""
    if t in env:
        x = env[t]
        return const(x, n or 64) if isinstance(x, int) else list(x)
    if t.op == "int":
        return const(t.a[0], W.get(t.a[1], n or 64))
    if t.op == "cast" and t.a[0] == "IntToInt":
        x = ev(t.a[1], env, W.get(t.a[2]))
        if x is None:
            return None
        to = W.get(t.a[3])
        if to is None:
            return None
        if len(x) >= to:
            return x[:to]
        return x + [x[-1] if t.a[2].startswith("i") else 0] * (to - len(x))
    if t.op == "un" and t.a[0] == "Not":
        x = ev(t.a[1], env, n)
        return None if x is None else [1 - b if b in (0, 1) else "?" for b in x]
    if t.op == "fld" and t.a[0].op == "bin" and t.a[1] == "0":
        return ev(t.a[0], env, n)
    if t.op == "bin":
        o = t.a[0].replace("WithOverflow", "").replace("Unchecked", "")
        if o in ("Shl", "Shr"):
            x = ev(t.a[1], env, n)
            k = ival(t.a[2], env)
            if x is None or k is None or k < 0:
                return None
            m = len(x)
            return ([0] * min(k, m) + x)[:m] if o == "Shl" else (x[k:] + [0] * min(k, m))
        if o in ("Div", "Mul", "Rem"):
            k = ival(t.a[2], env)
            a = t.a[1]
            if k is None and o == "Mul":
                k, a = ival(t.a[1], env), t.a[2]
            if k is None or k <= 0 or k & (k - 1):
                return None
            x = ev(a, env, n)
            if x is None:
                return None
            s = k.bit_length() - 1
            m = len(x)
            if o == "Div":
                return x[s:] + [0] * s
            if o == "Rem":
                return x[:s] + [0] * (m - s)
            return ([0] * s + x)[:m]
        x, y = ev(t.a[1], env, n), ev(t.a[2], env, n)
        if x is None or y is None:
            return None
        m = max(len(x), len(y))
        x, y = x + [0] * (m - len(x)), y + [0] * (m - len(y))
        out = []
        for p, q in zip(x, y):
            if o == "BitAnd":
                out.append(0 if p == 0 or q == 0 else q if p == 1 else p if q == 1 or p == q else "?")
            elif o in ("BitOr",):
                out.append(1 if p == 1 or q == 1 else q if p == 0 else p if q == 0 or p == q else "?")
            elif o == "BitXor":
                out.append(q if p == 0 else p if q == 0 else (p ^ q if p in (0, 1) and q in (0, 1) else "?"))
            elif o in ("Add",):
                # carry-free addition only
                if p != 0 and q != 0:
                    return None
                out.append(q if p == 0 else p)
            elif o == "Sub":
                if q == 0:
                    out.append(p)
                elif p == q:
                    out.append(0)
                else:
                    return None
            else:
                return None
        return out
    if t.op in ("pure", "call") and len(t.a[1]) == 2:
        last = t.a[0].split("::")[-1]
        m = {"wrapping_shl": "Shl", "wrapping_shr": "Shr", "wrapping_add": "Add", "bitand": "BitAnd", "bitor": "BitOr", "shl": "Shl", "shr": "Shr"}.get(last)
        if m:
            return ev(T("bin", m, *t.a[1]), env, n)
    if t.op in ("pure", "call") and t.a[0].split("::")[-1] in ("from", "into") and len(t.a[1]) == 1:
        return ev(t.a[1][0], env, n)
    return None


def ival(t, env):
    if t in env and isinstance(env[t], int):
        return env[t]
    if t.op == "int":
        return t.a[0]
    if t.op == "cast":
        return ival(t.a[1], env)
    if t.op == "fld" and t.a[0].op == "bin" and t.a[1] == "0":
        return ival(t.a[0], env)
    if t.op == "bin":
        x, y = ival(t.a[1], env), ival(t.a[2], env)
        if x is None or y is None:
            return None
        o = t.a[0].replace("WithOverflow", "")
        try:
            return {"Add": x + y, "Sub": x - y, "Mul": x * y, "Div": x // y if y else None, "Rem": x % y if y else None, "Shl": x << y if 0 <= y < 64 else None, "Shr": x >> y if 0 <= y < 64 else None, "BitAnd": x & y, "BitOr": x | y}.get(o)
        except Exception:
            return None
    return None
