"""Python side of P12: renders what arrived, checks against the expected text."""
import struct, fgmod

n = 0
seen = 0


def f32(b):
    return struct.unpack("<f", struct.pack("<I", b))[0]


def f64(b):
    return struct.unpack("<d", struct.pack("<Q", b))[0]


def split(s):
    out, d, cur = [], 0, ""
    for c in s:
        d += (c == "(") - (c == ")")
        if c == ";" and d == 0:
            out.append(cur)
            cur = ""
        else:
            cur += c
    return out + [cur]


def ser(sp, v):
    k = sp[0]
    if k == "I" and type(v) is int:
        return str(v)
    if k in "FD" and type(v) is float:
        if v != v:
            return "fnan" if k == "F" else "dnan"
        if k == "D":
            return "d%016x" % struct.unpack("<Q", struct.pack("<d", v))[0]
        try:
            b = struct.pack("<f", v)
        except OverflowError:
            return "?%r" % v
        return "f%08x" % struct.unpack("<I", b)[0] if struct.unpack("<f", b)[0] == v else "?%r" % v
    if k == "B" and type(v) is bool:
        return "1b" if v else "0b"
    if k == "S" and type(v) is str:
        return "s" + v.encode("utf-8", "surrogatepass").hex()
    if k == "U" and v is None:
        return "u"
    if k == "E" and type(v) is int:
        return {fgmod.En.A: "e0", fgmod.En.B: "e1", fgmod.En.C: "e2"}.get(v, "?enum %d" % v)
    if k == "C" and type(v) is getattr(fgmod, sp[1:]):
        return "o%d" % v.v()
    if k == "O":
        return "N" if v is None else "S(%s)" % ser(sp[2:-1], v)
    if k == "V" and type(v) is list:
        return "[%s]" % ",".join(ser(sp[2:-1], x) for x in v)
    if k == "T" and type(v) is tuple:
        ps = split(sp[2:-1])
        return "(%s)" % ",".join(ser(p, x) for p, x in zip(ps, v)) if len(ps) == len(v) else "?tuple of %d" % len(v)
    return "?%s %r" % (type(v).__name__, v)


def call(sp, f):
    try:
        v = f()
    except fgmod.Error as e:
        return "raise:s" + str(e).encode("utf-8", "surrogatepass").hex() if isinstance(e, Exception) and len(e.args) == 1 else "?error %r" % (e.args,)
    except BaseException as e:
        return "?%s: %s" % (type(e).__name__, e)
    return ser(sp, v)


def viol(w, text):
    print("VIOL\t%s\t%s\t-" % (w, text.replace("\t", " ").replace("\n", "\\n")[:600]))


def chk(w, k, got, want):
    global n
    n += 1
    if got != want:
        viol(w, "value %d arrived as %s, expected %s" % (k, got, want))


def refused(w, what, f, calls):
    global n
    n += 1
    c = calls()
    try:
        v = f()
    except (TypeError, ValueError, OverflowError):
        if calls() != c:
            viol(w, "%s: refused, but the Rust function ran" % what)
        return
    except BaseException as e:
        viol(w, "%s: %s: %s" % (what, type(e).__name__, e))
        return
    viol(w, "%s is not refused but arrived as %r" % (what, v))


def done():
    print("STATS\tpython\tsteps=%d\tseq=%d" % (n, n))
