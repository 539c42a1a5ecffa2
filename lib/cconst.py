"""Typed evaluation of C90 integer and float constant expressions (32-bit
int/long, 8-bit signed char, single precision floats), for C34."""
import struct


def f32(x):
    try:
        return struct.unpack("<f", struct.pack("<f", x))[0]
    except OverflowError:
        return float("inf") if x > 0 else float("-inf")


def wrap(v, w, s):
    v &= (1 << w) - 1
    if s and v >> (w - 1):
        v -= 1 << w
    return v


TYPES = {"char": (8, 1), "signed char": (8, 1), "unsigned char": (8, 0), "short": (16, 1), "unsigned short": (16, 0), "int": (32, 1),
         "unsigned": (32, 0), "long": (32, 1), "unsigned long": (32, 0)}
LITS = [0, 1, 2, 3, 5, 7, 8, 15, 16, 31, 32, 63, 64, 100, 127, 128, 129, 200, 255, 256, 257, 1000, 4095, 4096, 32767, 32768, 32769, 65535, 65536, 65537, 1 << 20, (1 << 24) - 1, 1 << 24,
        0x7ffffffe, 0x7fffffff]
ULITS = LITS + [0x80000000, 0x80000001, 0xdeadbeef, 0xfffffffe, 0xffffffff]
FL = [(0.0, "0.0"), (0.5, "0.5"), (1.0, "1.0"), (1.5, "1.5f"), (2.0, "2.0"), (0.25, ".25"), (100.0, "1e2"), (1024.0, "1024.f"), (65536.0, "65536.0"), (0.125, "125e-3"), (3.0, "3.f"), (7.75, "7.75")]


class Undefined(Exception):
    pass


class E:
    """expression: text, precedence, type ('int', 'unsigned', 'float'), value, operators used; rt: text with run-time operands"""
    def __init__(s, text, prec, t, v, rt=None, intc=True, mx=None):
        s.text, s.prec, s.t, s.v = text, prec, t, v
        s.rt = rt or text
        s.mx = mx or text
        s.intc = intc       # may be used where C90 wants an integral constant expression


class CGen:
    """random constant expressions; every operand also exists as a volatile variable"""
    def __init__(s, r):
        s.r = r
        s.vars = {}     # (type, text) -> name
        s.ops = {}

    def var(s, t, text):
        k = (t, text)
        if k not in s.vars:
            s.vars[k] = "v%d" % len(s.vars)
        return s.vars[k]

    def op(s, k):
        s.ops[k] = s.ops.get(k, 0) + 1

    def p(s, e, need, which):
        x = getattr(e, which)
        return "(" + x + ")" if e.prec < need else x

    def lit(s, fl):
        e = s.lit1(fl)
        e.mx = e.rt if s.r.random() < .4 else e.text
        return e

    def lit1(s, fl):
        r = s.r
        if fl and r.random() < .4:
            v, t = r.choice(FL)
            return E(t, 16, "float", v, s.var("float", t), False)
        if r.random() < .55:
            v = r.choice(LITS) if r.random() < .8 else r.randrange(1 << r.randrange(1, 32))
            k = r.random()
            if k < .15 and 32 <= v < 127 and chr(v) not in "\\'?":
                t = "'%c'" % v
            elif k < .2 and v < 256:
                t = r.choice(["'\\%o'", "'\\x%x'"]) % v
                v = wrap(v, 8, 1)
            else:
                t = r.choice(["%d", "%d", "0x%x", "0X%X", "0%o"]) % v + r.choice(["", "", "", "l", "L"])
            return E(t, 16, "int", v, s.var("int", t))
        v = r.choice(ULITS) if r.random() < .8 else r.randrange(1 << r.randrange(1, 33))
        if v >= 1 << 31 and r.random() < .3:
            t = r.choice(["0x%x", "0%o"]) % v      # unsigned by C90 rules
        else:
            t = r.choice(["%d", "%d", "0x%x", "0%o"]) % v + r.choice(["u", "U", "ul", "UL", "lu"])
        return E(t, 16, "unsigned", v, s.var("unsigned", t))

    def conv(s, e, t):
        """value of e converted to int, unsigned or float"""
        if t == e.t:
            return e.v
        if t == "float":
            if e.t == "unsigned" and e.v >= 1 << 31:
                raise Undefined         # lcc has no conversion of big unsigned values
            v = f32(float(e.v))
            if v != e.v:
                raise Undefined
            return v
        if e.t == "float":
            if not (-2147483648.0 <= e.v <= 2147483647.0) or (t == "unsigned" and e.v <= -1.0):
                raise Undefined
            return int(e.v)
        return wrap(e.v, 32, t == "int")

    def usual(s, a, b):
        t = "float" if "float" in (a.t, b.t) else "unsigned" if "unsigned" in (a.t, b.t) else "int"
        return t, s.conv(a, t), s.conv(b, t)

    def res(s, t, v):
        if t == "unsigned":
            return wrap(v, 32, 0)
        if t == "int":
            if not -2147483648 <= v <= 2147483647:
                raise Undefined
            return v
        v = f32(v)
        # results that are not exact depend on the precision used
        return v

    def flt(s, x, exact):
        if x != exact or abs(x) > 1e30 or (x != 0 and abs(x) < 1e-20):
            raise Undefined
        return x

    def gen(s, d, fl):
        for _ in range(50):
            try:
                return s.gen1(d, fl)
            except Undefined:
                pass
        return s.lit(False)

    def gen1(s, d, fl):
        r = s.r
        if d <= 0:
            return s.lit(fl)
        k = r.random()

        def mk(fmt, prec, t, v, *kids):
            a = [s.p(e, q, "text") for e, q in kids]
            b = [s.p(e, q, "rt") for e, q in kids]
            m = [s.p(e, q, "mx") for e, q in kids]
            return E(fmt % tuple(a), prec, t, v, fmt % tuple(b), all(e.intc for e, q in kids), fmt % tuple(m))
        if k < .3:
            a, b = s.gen(d - 1, fl), s.gen(d - 1, fl)
            o, pr = r.choice([("+", 12), ("-", 12), ("*", 13), ("/", 13), ("%", 13)])
            t, x, y = s.usual(a, b)
            if t == "float":
                if o == "%":
                    raise Undefined
                if o == "/":
                    if y == 0:
                        raise Undefined
                    from fractions import Fraction
                    q = f32(x / y)
                    if Fraction(x) / Fraction(y) != Fraction(q):
                        raise Undefined
                    v = s.flt(q, q)
                else:
                    from fractions import Fraction
                    X, Y = Fraction(x), Fraction(y)
                    ex = X + Y if o == "+" else X - Y if o == "-" else X * Y
                    v = f32(x + y if o == "+" else x - y if o == "-" else x * y)
                    if Fraction(v) != ex:
                        raise Undefined
                    v = s.flt(v, v)
            elif o in "/%":
                if y == 0 or (t == "int" and x == -(1 << 31) and y == -1):
                    raise Undefined
                q = abs(x) // abs(y)
                if (x < 0) != (y < 0):
                    q = -q
                v = s.res(t, q if o == "/" else x - q * y)
            else:
                v = s.res(t, x + y if o == "+" else x - y if o == "-" else x * y)
            s.op(o + " " + t)
            return mk("%s " + o.replace("%", "%%") + " %s", pr, t, v, (a, pr), (b, pr + 1))
        if k < .42:
            a, b = s.gen(d - 1, False), s.gen(d - 1, False)
            o, pr = r.choice([("&", 8), ("^", 7), ("|", 6)])
            t, x, y = s.usual(a, b)
            if t == "float":
                raise Undefined
            v = x & y if o == "&" else x | y if o == "|" else x ^ y
            s.op(o + " " + t)
            return mk("%s " + o + " %s", pr, t, wrap(v, 32, t == "int"), (a, pr), (b, pr + 1))
        if k < .54:
            a, b = s.gen(d - 1, False), s.gen(d - 2, False)
            if a.t == "float" or b.t == "float":
                raise Undefined
            o = r.choice(["<<", ">>"])
            if not 0 <= b.v < 32:
                n = r.randrange(32)
                b = E(str(n), 16, "int", n, s.var("int", str(n)))
            v = wrap(a.v << b.v, 32, a.t == "int") if o == "<<" else a.v >> b.v
            s.op(o + " " + a.t)
            return mk("%s " + o + " %s", 11, a.t, v, (a, 11), (b, 12))
        if k < .68:
            a, b = s.gen(d - 1, fl), s.gen(d - 1, fl)
            o, pr = r.choice([("<", 10), (">", 10), ("<=", 10), (">=", 10), ("==", 9), ("!=", 9)])
            t, x, y = s.usual(a, b)
            v = {"<": x < y, ">": x > y, "<=": x <= y, ">=": x >= y, "==": x == y, "!=": x != y}[o]
            s.op(o + " " + t)
            return mk("%s " + o + " %s", pr, "int", int(v), (a, pr), (b, pr + 1))
        if k < .75:
            a, b = s.gen(d - 1, fl), s.gen(d - 1, fl)
            o, pr = r.choice([("&&", 5), ("||", 4)])
            x, y = a.v != 0, b.v != 0
            s.op(o + " " + a.t)
            return mk("%s " + o + " %s", pr, "int", int(x and y if o == "&&" else x or y), (a, pr), (b, pr + 1))
        if k < .86:
            o = r.choice(["-", "~", "!", "+"])
            a = s.gen(d - 1, fl and o != "~")
            if o == "~" and a.t == "float":
                raise Undefined
            s.op("unary " + o + " " + a.t)
            sp = o + (" " if o in "+-" else "")
            if o == "!":
                return mk("!%s", 14, "int", int(a.v == 0), (a, 14))
            if o == "~":
                return mk("~%s", 14, a.t, wrap(~a.v, 32, a.t == "int"), (a, 14))
            if o == "+":
                return mk(sp + "%s", 14, a.t, a.v, (a, 14))
            return mk(sp + "%s", 14, a.t, -a.v if a.t == "float" else s.res(a.t, -a.v), (a, 14))
        if k < .94:
            a = s.gen(d - 1, fl)
            if fl and r.random() < .25:
                s.op("cast %s float" % a.t)
                v = s.conv(a, "float")
                e = mk(r.choice(["(float)%s", "(double)%s"]), 14, "float", v, (a, 14))
                if a.t != "float":
                    from fractions import Fraction
                    if Fraction(v) != a.v:
                        raise Undefined
                e.intc = False
                return e
            n = r.choice(list(TYPES))
            w, sg = TYPES[n]
            if a.t == "float":
                lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if sg else (0, (1 << w) - 1 if w < 32 else (1 << 31) - 1)
                if not lo <= int(a.v) <= hi or a.v < lo:
                    raise Undefined
                v = int(a.v)
            else:
                v = wrap(a.v, w, sg)
            s.op("cast %s %s" % (a.t, n))
            t = "unsigned" if (w, sg) == (32, 0) else "int"
            e = mk("(%s)%%s" % n, 14, t, v, (a, 14))
            if a.t == "float" and a.prec < 16:
                e.intc = False
            elif a.t == "float":
                e.intc = True       # a float constant that is the immediate operand of a cast
            return e
        if k < .97:
            c, a, b = s.gen(d - 1, fl), s.gen(d - 1, fl), s.gen(d - 1, fl)
            t, x, y = s.usual(a, b)
            s.op("?: " + t)
            return mk("%s ? %s : %s", 3, t, x if c.v != 0 else y, (c, 4), (a, 3), (b, 3))
        n = r.choice(list(TYPES) + ["float", "double", "char *", "int [7]", "short [3][2]"])
        v = {"float": 4, "double": 4, "char *": 4, "int [7]": 28, "short [3][2]": 12}.get(n) or TYPES[n][0] // 8
        s.op("sizeof")
        return E("sizeof(%s)" % n, 14, "unsigned", v)
