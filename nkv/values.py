"""Values of the specification <-> harness tokens, log records and source text."""
import struct


def V(t, i=0, e=0, s=""):
    return {"t": t, "i": i, "e": e, "s": s}


def key(v):
    return (v["t"], v["i"], v["e"], v["s"])


def seen(v):
    """Normalise a value the harness logged to the specification's form."""
    if v["t"] == "f" and v["e"] == -1:
        bits = v["i"] & 0xffffffff
        f = struct.unpack("<f", struct.pack("<I", bits))[0]
        if f != f:
            return V("f", 1, 0, "nan")
        if f in (float("inf"), float("-inf")):
            return V("f", 1 if f > 0 else -1, 0, "inf")
        if bits == 0x80000000:
            return V("f", 0, 0, "-0")
        if f == -2147483648.0:
            return V("f", -2147483648)
    return V(v["t"], v["i"], v["e"], v["s"])


def outside(v):
    """A specification value as the harness would log it (functions and plain objects have no identity)."""
    if v["t"] == "fn":
        return V("fn")
    return V(v["t"], v["i"], v["e"], v["s"])


def same(logged, expected):
    return key(seen(logged)) == key(outside(expected))


def fval(v):
    if v["s"] == "inf":
        return float("inf") * v["i"]
    if v["s"] == "nan":
        return float("nan")
    if v["s"] == "-0":
        return -0.0
    return v["i"] / 2.0 ** v["e"]


def token(v, fns=("print", "ii"), regs=("r0", "r1", "r2")):
    """Harness command token for a value."""
    t = v["t"]
    if t == "i":
        return "i:%d" % v["i"]
    if t == "f":
        return "f:%r" % fval(v)
    if t == "s":
        return "s:" + (v["s"].encode("latin-1").hex())
    if t == "n":
        return "n"
    if t == "fn":
        return "g:" + fns[v["i"] - 1].encode().hex()
    return regs[v["i"]]


def dec(v):
    """Exact decimal text of a float value (no exponent), or None."""
    if v["s"] or v["e"] > 20:
        return None
    from fractions import Fraction
    n, e = abs(v["i"]), v["e"]
    w = n >> e
    r = n - (w << e)
    digits = ""
    while r:
        r *= 10
        digits += str(r >> e)
        r -= (r >> e) << e
    return ("-" if v["i"] < 0 else "") + str(w) + "." + (digits or "0")


def quote(s):
    out = '"'
    for c in s:
        out += {"\n": "\\n", "\r": "\\r", "\t": "\\t", '"': '\\"'}.get(c, c)
    return out + '"'


def literal(v):
    """Source text of a literal denoting v, or None."""
    t = v["t"]
    if t == "i":
        if v["i"] == -2147483648:
            return "-2147483647-1"
        return str(v["i"])
    if t == "f":
        return dec(v)
    if t == "s":
        if "\\" in v["s"]:
            return None
        return quote(v["s"])
    if t == "n":
        return "nil"
    return None
