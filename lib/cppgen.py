"""Random macro programs (several files) for the preprocessor, and a tokenizer
for preprocessed text.  The programs avoid what C90 leaves undefined or
unspecified (empty arguments, directives in arguments, the order of # and ##,
invalid pastes, calls that begin in a replacement of a recursive macro and end
behind it)."""
import re

PUNCT = ["...", "<<=", ">>=", "->", "++", "--", "<<", ">>", "<=", ">=", "==", "!=", "&&", "||", "*=", "/=", "%=", "+=", "-=", "&=", "^=", "|=", "##"]
TOKEN = re.compile(r'''(?P<ws>[ \t\f\v\r]+)|(?P<nl>\n)|(?P<name>[A-Za-z_]\w*)|(?P<num>\.?[0-9](?:[eE][+-]|[A-Za-z0-9_.])*)|(?P<str>L?"(?:\\.|[^"\\\n])*")|(?P<chr>L?'(?:\\.|[^'\\\n])*')|(?P<op>%s|.)''' % "|".join(re.escape(p) for p in PUNCT), re.S)


def tokens(text):
    """preprocessed text -> [(token, file, line)]"""
    out = []
    f, n = "", 1
    for line in text.split("\n"):
        m = re.match(r'\s*#\s*(?:line\s+)?(\d+)(?:\s+"((?:[^"\\]|\\.)*)")?', line)
        if m:
            n = int(m.group(1))
            if m.group(2) is not None:
                f = m.group(2)
            continue
        if re.match(r"\s*#", line):
            n += 1
            continue
        for m in TOKEN.finditer(line):
            if m.lastgroup != "ws":
                t = m.group()
                if t[0] == "L" and len(t) > 1 and t[1] in "\"'":
                    out.append(("L", f, n))
                    t = t[1:]
                out.append((t, f, n))
        n += 1
    return out


def glue(a, b):
    """may tokens a and b be written without space between them?"""
    if not a or not b:
        return True
    s = a + b
    if a[-1] in "/<%:>?" or b[0] in "/:%?" or (a[-1] == "\\" or b[0] == "\\"):
        return False
    ts = [m.group() for m in TOKEN.finditer(s)]
    return ts == [a, b]


class Mac:
    def __init__(s, name, params=None, order=0, paste=(), sval=None):
        s.name = name
        s.params = params      # None: object-like
        s.order = order
        s.paste = set(paste)   # parameters next to ##
        s.nosep = set()
        s.hash = False         # expands to # or ##
        s.ival = sval          # (lo, hi) known value for #if


class Gen:
    def __init__(s, r):
        s.r = r
        s.macros = {}
        s.n = 0
        s.order = 0
        s.marker = 0
        s.files = {}
        s.opts = []
        s.stat = {}
        s.slash = r.random() < 0.25     # // comments
        s.depth = 0
        s.rich = r.random() < 0.4
        s.guard = 0
        s.inbody = False
        s.dense = r.random() < 0.85     # no macro expands to nothing

    def f(s, k):
        s.stat[k] = s.stat.get(k, 0) + 1

    # ---- rendering
    def ws(s, nl=False):
        r = s.r
        k = r.random()
        if k < 0.6:
            return " "
        if k < 0.7:
            return "\t"
        if k < 0.8:
            return "/*%s*/" % r.choice(["", "c", " * ", "/*", "'", '"', " // ", "\xfd", "\xe4\xfe ", "\n" if nl else "x"])
        if k < 0.86:
            return " \\\n "
        if k < 0.9:
            return "  "
        if nl:
            if s.slash and k < 0.95:
                return "// c ' \" /*\n"
            return r.choice(["\n", "\n", "\n \n", " \n", "\n\n\n"])
        return " "

    def text(s, toks, nl=False):
        """tokens -> text; items may be ('_',) for 'no white space here' """
        out = []
        prev = None
        r = s.r
        tight = r.random() < 0.5
        hard = False
        for t in toks:
            if t is None:
                hard = True
                continue
            if prev is not None:
                if hard:
                    pass
                elif glue(prev, t) and r.random() < (0.8 if tight else 0.3):
                    if r.random() < 0.03:
                        out.append("\\\n")
                else:
                    w = s.ws(nl)
                    out.append(" " + w if prev[-1] == "/" and w[0] == "/" else w)
            hard = False
            if len(t) > 1 and r.random() < 0.01 and t[0] not in "'\"?":
                k = r.randrange(1, len(t))
                t2 = t[:k] + "\\\n" + t[k:]
                out.append(t2)
            else:
                out.append(t)
            prev = t
        return "".join(out)

    # ---- tokens
    def number(s):
        r = s.r
        return r.choice(["0", "1", "2", "7", "42", "0x1F", "0xffU", "10L", "1.5", ".5e3", "1e+5", "3.f", "0x1e+5", "017", "1.2.3", "5ul", "1E-2", "2e"])

    def string(s):
        r = s.r
        if r.random() < 0.3:
            return r.choice(["'a'", "'\\n'", "'\\''", "'\"'", "'('", "','", "'\\\\'", "'\\0'", "'ab'"])
        return '"' + "".join(r.choice(["a", "b ", ",", "(", ")", "\\\"", "\\\\", "\\n", "'", "/*", "*/", "//", "#", "  ", "%d", "\\0", "\\377", "\xe9", "\xfd", "\xfe", "\x80"]) for _ in range(r.randrange(6))) + '"'

    def ident(s):
        return s.r.choice(["a", "b", "c", "foo", "x1", "L", "e", "E5", "if", "int", "defined_", "_t", "u", "M_x"])

    def op(s):
        return s.r.choice(["+", "-", "*", "/", "%", "<", ">", "=", "&", "|", "^", "!", "~", "?", ":", ";", "[", "]", "{", "}", ".", "->", "++", "--", "<<", ">>", "<=", ">=", "==", "!=", "&&", "||", "+=", "-=", "...", "<<=", ">>=", "*=", "/=", "%=", "&=", "^=", "|="])

    def atom(s):
        k = s.r.random()
        return s.number() if k < 0.3 else s.ident() if k < 0.6 else s.string() if k < 0.72 else s.op()

    def usable(s, order):
        return [m for m in s.macros.values() if m.order < order]

    def toks(s, n, order, d=0, params=(), comma=True):
        """n items: atoms, parentheses, macro uses (of macros before order)"""
        r = s.r
        out = []
        for _ in range(n):
            k = r.random()
            us = s.usable(order) if k < 0.45 else []
            if params and k > 0.6:
                out.append(r.choice(params))
            elif us and d < 4:
                out += s.use(r.choice(us), order, d + 1, params)
            elif k > 0.5 and k < 0.56 and d < 4:
                out += ["("] + s.toks(r.randrange(0, 3), order, d + 1, params) + [")"]
            elif comma and k > 0.56 and k < 0.59:
                out.append(",")
            else:
                out.append(s.atom())
        return out

    def arg(s, m, p, order, d, params):
        r = s.r
        if p in m.paste:
            return [r.choice(["a", "b", "x", "1", "2", "12", "L", "e"] + ([q for q in ["A", "B", "M1", "M2"]] if s.rich else []))] if p not in m.nosep else [r.choice(["a", "b", "x", "E"])]
        a = s.toks(r.randrange(1, 4), order, d + 1, params, comma=False)
        if not s.inbody and r.random() < 0.08:
            # no operators here, never at the begin of a line
            s.f("# or ## in argument")
            x = [s.ident(), None, r.choice(["##", " ##", " /**/##", "#", " #"]), s.ident()]
            if r.random() < .4:
                x = ["("] + x + [")"]
            a = x + a if r.random() < .3 else a + x
        return a

    def use(s, m, order, d=0, params=()):
        r = s.r
        if m.params is None:
            if m.hash:
                # never at the begin of a line
                return ["7 " + m.name]
            return [m.name]
        if r.random() < 0.08 and d < 3:
            s.f("name without call")
            return [m.name, r.choice(["+", ";", "a", "1", "]"])]
        out = [m.name, "("]
        for i, p in enumerate(m.params):
            if i:
                out.append(",")
            out += s.arg(m, p, order, d, params)
        s.f("call")
        return out + [")"]

    # ---- definitions
    def define(s, name=None):
        s.inbody = True
        x = s.define1(name)
        s.inbody = False
        return x

    def define1(s, name):
        r = s.r
        s.order += 1
        if name is None:
            s.n += 1
            name = r.choice(["M%d", "f%d", "A%d_", "Q%dx"]) % s.n if r.random() < 0.9 or not s.rich else r.choice(["A", "B", "M1", "M2", "xa", "ab", "a1"])
        if name in s.macros:
            return ""
        k = r.random()
        o = s.order
        m = Mac(name, None, o)
        if k < 0.12:
            v = r.choice([0, 1, 2, 3, 7, 255, 65536, 0x7fffffff])
            body = [str(v)] if r.random() < 0.7 else ["(", "-", str(v), ")"]
            m.ival = v if body[0] != "(" else -v
            s.f("number macro")
        elif k < 0.15:
            body = r.choice([["#", "##", "#"], ["1", "#", "##", "#", "a"], ["#", "##", "#", ";"], ["#"], ["x", "#"]])
            m.hash = True
            s.f("# ## #")
        elif k < 0.4:
            body = s.toks(r.randrange(0, 5), o)
            if r.random() < 0.2:
                body.append(name)
                s.f("self reference")
            s.f("object macro")
        else:
            np = r.choice([0, 1, 1, 1, 2, 2, 2, 3, 3, 4, 5]) if r.random() < 0.97 else r.randrange(6, 32)
            m.params = ["p%d" % i for i in range(np)] if r.random() < 0.7 else r.sample(["x", "y", "z", "a", "b", "c", "foo", "e", "L", "u", "_t", "E5"] + ["q%d" % i for i in range(30)], np)
            s.f("function macro")
            body = []
            for _ in range(r.randrange(0, 6)):
                k = r.random()
                if k < 0.3 and np:
                    body.append(r.choice(m.params))
                elif k < 0.45 and np:
                    body += ["#", r.choice(m.params)]
                    s.f("#")
                elif k < 0.65 and np:
                    p = r.choice(m.params)
                    m.paste.add(p)
                    kk = r.random()
                    if kk < 0.4:
                        body += [r.choice(["x", "ab", "M", "_1", "f"]), "##", p]
                    elif kk < 0.6:
                        q = r.choice(m.params)
                        m.paste.add(q)
                        m.nosep.add(p)
                        body += [p, "##", q]
                        if r.random() < 0.3:
                            body += ["##", r.choice(["1", "z", q])]
                            m.nosep.add(q)
                    elif kk < 0.8:
                        m.nosep.add(p)
                        body += [p, "##", r.choice(["1", "x", "_2", "M1"])]
                    else:
                        body += [r.choice(["1", "0x1", "12"]), "##", p]
                    body.append(r.choice([";", "+", ","]))
                    s.f("##")
                elif k < 0.7:
                    body += r.choice([["<", "##", "<"], ["-", "##", ">"], ["+", "##", "="], ["x", "##", "y"], ["&", "##", "&"], ["1", "##", "e", "##", "5"][:3]])
                    body.append(";")
                elif k < 0.8 and np:
                    # complete recursive call
                    body += [name, "("]
                    for i in range(np):
                        if i:
                            body.append(",")
                        body.append(m.params[i])
                    body += [")"]
                    for p in m.params:
                        pass
                    s.f("recursive call")
                else:
                    body += s.toks(r.randrange(1, 3), o, 1, [])
            # parameters inside other macros' arguments
            if r.random() < 0.3 and np:
                us = [u for u in s.usable(o) if u.params]
                if us:
                    u = r.choice(us)
                    call = [u.name, "("]
                    for i, p in enumerate(u.params):
                        if i:
                            call.append(",")
                        q = r.choice(m.params)
                        if p in u.paste:
                            call.append(r.choice(["a", "b", "x"]))
                        else:
                            call.append(q)
                    body += call + [")"]
                    s.f("nested call")
        if s.dense and not any(t[0] in "0123456789\"'" or t in (";", "#") for t in body):
            # arguments that become empty are undefined in C90, but accepted by gcc
            body.append(";")
        # '#' at the begin of a body of function-like macros must precede a parameter: generated so
        head = ["define", name]
        if m.params is not None:
            ps = []
            for i, p in enumerate(m.params):
                if i:
                    ps.append(",")
                ps.append(p)
            head = ["define", name, None, "("] + ps + [")"]
        line = s.text(["#"] + head) + (" " if body or r.random() < 0.3 else "") + s.text(body)
        if any(a == "##" and b == "##" for a, b in zip(body, body[1:])):
            return ""
        s.macros[name] = m
        m.line = line
        m.head, m.body = head, body
        return s.lead() + line + s.trail() + "\n"

    def lead(s):
        return s.r.choice(["", "", "", " ", "\t", "/* d */ "])

    def trail(s):
        return s.r.choice(["", "", "", " ", " /* e */", " /* a\n b */" if s.r.random() < 0.5 else "", "// g" if s.slash else ""])

    # ---- #if
    def iexpr(s, d):
        """-> (text tokens, value) with the same value in 32 and 64 bits; value
        None if not known (then nothing is computed with it that could overflow)"""
        r = s.r
        if d <= 0 or r.random() < 0.15:
            k = r.random()
            if k < 0.35:
                v = r.choice([0, 1, 2, 3, 5, 8, 31, 100, 255, 256, 32767, 65535, 0x7fffffff])
                return [r.choice(["%d", "%dL", "0x%x", "0%o", "0X%Xl"]) % v], v
            if k < 0.45:
                v = r.choice([0, 7, 8, 9, 10, 11, 12, 13, 34, 39, 63, 92, r.randint(32, 126), r.randint(0, 127)])
                esc = {7: "\\a", 8: "\\b", 9: "\\t", 10: "\\n", 11: "\\v", 12: "\\f", 13: "\\r", 34: '\\"', 39: "\\'", 63: "\\?", 92: "\\\\"}
                c = ["\\%o" % v, "\\%03o" % v, "\\x%x" % v, "\\x%03X" % v]
                if v in esc:
                    c += [esc[v]] * 3
                elif v >= 32 and v < 127:
                    c += [chr(v)] * 3
                return ["'%s'" % r.choice(c)], v
                return [c[0]], c[1]
            if k < 0.6:
                n = r.choice(list(s.macros) + ["nope", "int"])
                v = 1 if n in s.macros else 0
                s.f("defined")
                return (["defined", n] if r.random() < 0.5 else ["defined", "(", n, ")"]), v
            if k < 0.75:
                return [r.choice(["undef1", "while", "zz"])], 0
            ms = [m for m in s.macros.values() if m.ival is not None]
            if ms:
                m = r.choice(ms)
                return [m.name], m.ival
            return ["__LINE__", ">", "0"] if 0 else ["1"], 1
        k = r.random()
        if k < 0.08:
            t, v = s.iexpr(d - 1)
            return ["!"] + s.par(t), int(not v)
        if k < 0.14:
            t, v = s.iexpr(d - 1)
            return ["-"] + s.par(t), -v
        if k < 0.18:
            t, v = s.iexpr(d - 1)
            return ["~"] + s.par(t), ~v
        if k < 0.2:
            t, v = s.iexpr(d - 1)
            return ["+"] + s.par(t), v
        if k < 0.3:
            c, cv = s.iexpr(d - 1)
            a, av = s.iexpr(d - 1)
            b, bv = s.iexpr(d - 1)
            s.f("?:")
            return s.par(c) + ["?"] + s.par(a) + [":"] + s.par(b), av if cv else bv
        o = r.choice(["+", "-", "*", "/", "%", "<<", ">>", "<", ">", "<=", ">=", "==", "!=", "&", "|", "^", "&&", "||"])
        a, x = s.iexpr(d - 1)
        b, y = s.iexpr(d - 1)
        v = None
        if o in "+-*":
            v = eval("x%sy" % o)
        elif o in "/%":
            if y == 0:
                if r.random() < 0.3:
                    # not evaluated
                    s.f("unevaluated division by zero")
                    w = r.random() < 0.5
                    return (["0", "&&"] if w else ["1", "||"]) + ["("] + s.par(a) + [o] + s.par(b) + [")"], 0 if w else 1
                return s.par(a), x
            q = abs(x) // abs(y)
            q = q if (x < 0) == (y < 0) else -q
            v = q if o == "/" else x - q * y
        elif o in ("<<", ">>"):
            if x < 0 or not 0 <= y < 31:
                return s.par(a), x
            v = x << y if o == "<<" else x >> y
        elif o == "&&":
            v = int(bool(x and y))
        elif o == "||":
            v = int(bool(x or y))
        elif o in "&|^":
            v = eval("x%sy" % o)
        else:
            v = int(eval("x%sy" % o))
        if not -0x80000000 <= v <= 0x7fffffff:
            return s.par(a), x
        s.f("#if operator " + o)
        pri = {"*": 10, "/": 10, "%": 10, "+": 9, "-": 9, "<<": 8, ">>": 8, "<": 7, ">": 7, "<=": 7, ">=": 7, "==": 6, "!=": 6, "&": 5, "^": 4, "|": 3, "&&": 2, "||": 1}
        if r.random() < 0.6:
            # leave parentheses out where precedence allows
            return s.part(a, pri[o], 0, pri) + [o] + s.part(b, pri[o], 1, pri), v
        return s.par(a) + [o] + s.par(b), v

    def par(s, t):
        return t if len(t) == 1 else ["("] + t + [")"]

    def part(s, t, p, right, pri):
        d = 0
        lo = 99
        prev = "("
        for x in t:
            if x == "(":
                d += 1
            elif x == ")":
                d -= 1
            elif d == 0 and x in ("?", ":"):
                lo = 0
            elif d == 0 and x in pri and prev not in pri and prev not in ("!", "~", "("):
                lo = min(lo, pri[x])
            prev = x
        if lo > p or (lo == p and not right):
            return t
        return ["("] + t + [")"]

    def cond(s):
        r = s.r
        if r.random() < 0.1:
            # unsigned arithmetic
            v = r.choice(["1u < 2", "-1 < 0u", "0u - 1 > 5", "5u / 2 == 2", "(1 ? -1 : 0u) > 0", "0x7fffffffu + 1 > 0", "-1 / 2u > 0", "(0 ? 1u : -1) < 0", "1 ? 0 : 0u", "3u - 4 >> 1 > 100u", "-1 % 2u == 1", "(-1 < 1u) == 0", "~0u > 0", "-1 >> 1 == -1", "(2 || 3u) - 2 < 0", "(1u < 2) - 2 < 0", "!1u - 1 < 0"])
            s.f("#if unsigned")
            return [v]
        t, v = s.iexpr(r.randrange(0, 5))
        return t

    def mark(s):
        s.marker += 1
        return "MARK%d" % s.marker

    # ---- lines
    def junk(s):
        r = s.r
        if s.macros and r.random() < 0.15:
            return "# %s %s" % (r.choice(list(s.macros)), r.choice(["", "1", "x", "( a"]))
        return r.choice(["#error no", "#foo bar", "#if (((", "#else_x", "#include <nope>", "# 12 34", "text , ( \" a \" ' '", "#define", "#undef 1", "#elifx", "#line x", "F(1", "/* #endif */", "#include \"nope\"", "#pragma x"])

    def skipped(s, n):
        out = []
        for _ in range(n):
            j = s.junk()
            out.append(j + "\n")
            if j.startswith("#if "):
                if s.r.random() < 0.4:
                    out.append("#elif ) bad\n")
                if s.r.random() < 0.4:
                    out.append("#else\n" + s.junk().replace("#if (((", "x") + "\n")
                out.append("#endif\n")
        return "".join(out)

    def line(s, f, d=0):
        r = s.r
        k = r.random()
        if k < 0.28:
            return s.define()
        if k < 0.55:
            s.f("text")
            t = s.toks(r.randrange(1, 7), s.order + 1)
            x = s.text(t, nl=True)
            # a directive must not begin within a call
            x = re.sub(r"\n([ \t]*(?:/\*.*?\*/[ \t]*)*#)", r" \1", x)
            fs = [n for n, m in s.macros.items() if m.params is not None]
            if "\n" in x:
                # (the line number after a call over several lines and a name without one is not judged)
                x += " ;"
            elif fs and r.random() < 0.2:
                x += " " + r.choice(fs)
                s.f("function-like name at the end of a line")
                if r.random() < 0.5:
                    return x + "\n#define Z%d (\n" % s.marker + s.mark() + "\n"
                return x + "\n" + s.mark() + " ;\n"
            return x + "\n" + (s.mark() + "\n" if r.random() < 0.5 else "")
        if k < 0.56:
            # white space in arguments that become strings
            s.n += 1
            s.f("stringify exactly")
            a = [[t for t in s.toks(r.randrange(1, 6), 0, comma=False) if t not in s.macros] for _ in range(2)]
            if any("(" in t or ")" in t or "," in t for x in a for t in x):
                a = [["a", "-", "\"q\\n\"", "1.5"], ["'\\\\'", "b"]]
            gap = lambda: r.choice(["", " ", "  ", "\t", " /* c */ ", "/**/", "\n", "\n\n "])
            sep = lambda: r.choice([" ", " ", "  ", "\t ", "/* c */", "\n", " \n "])
            t = [gap() + "".join(x + sep() for x in y[:-1]) + "".join(y[-1:]) + gap() for y in a]
            t = [re.sub(r"/(?=/\*)", "/ ", re.sub(r"\n[ \t]*#", " #", x)) for x in t]
            return "#define STRICT%d(a,b) #a # b\nSTRICT %d STRICT%d(%s,%s) ;\n" % (s.n, s.n, s.n, t[0], t[1])
        if k < 0.62:
            if s.macros and r.random() < 0.7:
                n = r.choice(list(s.macros))
                if s.depth == 0:
                    del s.macros[n]
                    s.f("#undef")
                    s.order += 1
                    x = s.lead() + s.text(["#", "undef", n]) + s.trail() + "\n"
                    if r.random() < 0.5:
                        x += s.define(n)
                        s.f("redefinition")
                    return x
            return "#undef never\n"
        if k < 0.66 and s.macros:
            m = s.macros[r.choice(list(s.macros))]
            s.f("identical redefinition")
            return m.line.split("/*")[0] + "\n" if "/*" not in m.line and "\\" not in m.line and "//" not in m.line else ""
        if k < 0.8 and d < 5:
            return s.conditional(f, d)
        if k < 0.84:
            s.f("__LINE__")
            return s.mark() + "\n" + r.choice(["__LINE__ MARKX\n", "__FILE__\n", "__STDC__\n", "a __LINE__ ( __LINE__ )\n"])
        if k < 0.87:
            s.f("#line")
            n = r.randrange(1, 32767)
            c = r.random()
            if c < 0.4:
                return "#line %d\n%s __LINE__ __FILE__\n" % (n, s.mark())
            if c < 0.8:
                return "#line %d \"other%d.c\"\n%s __LINE__ __FILE__\n" % (n, s.marker, s.mark())
            s.n += 1
            return "#define LN%d %d \"mac.c\"\n#line LN%d\n%s __LINE__ __FILE__\n" % (s.n, n, s.n, s.mark())
        if k < 0.9:
            return r.choice(["#\n", "# /* nothing */\n", "/* c */ # /* c */\n", "\n", " \n", "/* a\n b\n c */\n"]) + s.mark() + "\n"
        if k < 0.96 and len(s.files) < 6 and s.depth == 0:
            return s.include(f)
        return s.mark() + "\n"

    def include(s, f):
        r = s.r
        s.f("#include")
        n = len(s.files)
        where = r.choice(["", "", "inc1/", "inc2/"] if "/" not in f else ["inc1/", "inc2/"])
        name = "h%d.h" % n
        s.files[where + name] = None
        body = ""
        save = s.depth
        g = None
        if r.random() < 0.3:
            g = "H%d_H" % n
            body += "#ifndef %s\n#define %s\n" % (g, g)
        for _ in range(r.randrange(1, 7)):
            body += s.line(where + name)
        if g:
            body += "#endif\n"
        if r.random() < 0.15 and body.endswith("\n") and not body.endswith("\\\n"):
            body = body[:-1]
            s.f("no newline at the end of a header")
        s.files[where + name] = body
        if where:
            form = r.choice(['"%s"', "<%s>"] if "/" not in f else ["<%s>"]) % name
            if r.random() < 0.5:
                # the same name in the other directory, found later
                other = "inc2/" if where == "inc1/" else None
                if other:
                    s.files[other + name] = "WRONG\n"
                    s.f("same name in two -I directories")
        else:
            form = '"%s"' % name
        if r.random() < 0.2:
            s.n += 1
            s.f("macro #include")
            form2 = "INC%d" % s.n
            x = "#define %s %s\n#include %s\n" % (form2, form, form2)
        else:
            x = s.lead() + "#" + r.choice(["", " "]) + "include" + r.choice([" ", "", "\t"]) + form + s.trail() + "\n"
        if g and r.random() < 0.5:
            x += "#include %s\n" % form
            s.f("repeated #include")
        return x + s.mark() + "\n"

    def conditional(s, f, d):
        """definitions inside are kept out of the model: what is defined in a
        branch is undefined again at its end"""
        r = s.r
        out = ""
        k = r.random()
        if k < 0.25:
            n = r.choice(list(s.macros) + ["nope"])
            out += s.lead() + s.text(["#", r.choice(["ifdef", "ifndef"]), n]) + s.trail() + "\n"
            s.f("#ifdef")
        else:
            c = s.cond()
            out += "#if " + s.text(c).replace("// ", "/ / ") + s.trail() + "\n"
            s.f("#if")
        s.depth += 1

        def group():
            x = ""
            for _ in range(r.randrange(0, 3)):
                x += s.line(f, d + 1) if r.random() < 0.8 else s.mark() + "\n"
            return x
        # macros defined in groups stay unknown to the generator
        def guarded():
            save = dict(s.macros)
            o = s.order
            x = group()
            new = [n for n in s.macros if n not in save]
            s.macros = save
            s.order += 1
            for n in new:
                x += "#undef %s\n" % n
            return x
        out += guarded()
        while r.random() < 0.3:
            out += "#elif " + s.text(s.cond()) + "\n" + guarded()
            s.f("#elif")
        if r.random() < 0.5:
            out += "#else" + s.trail() + "\n" + guarded()
            s.f("#else")
        s.depth -= 1
        out += "#endif" + s.trail() + "\n"
        if r.random() < 0.2:
            out += "#if 0\n" + s.skipped(r.randrange(1, 4)) + "#else\n" + s.mark() + "\n#endif\n"
            s.f("skipped group")
        if r.random() < 0.1:
            out += "#if 1\n" + s.mark() + "\n#else\n" + s.skipped(r.randrange(1, 4)) + "#endif\n"
        return out

    def program(s):
        r = s.r
        s.files["m.c"] = None
        s.opts = ["-Iinc1", "-Iinc2"]
        if r.random() < 0.4:
            for n in ("D1", "D2", "D3"):
                v = r.choice([None, "1", "2", "x" if s.dense else "", "(1+2)", "x y", "\"s\"", "D1", "'c'"])
                s.opts.append("-D" + n + ("" if v is None else "=" + v))
                m = Mac(n, None, 0)
                if v in (None, "1", "2"):
                    m.ival = int(v or 1)
                s.macros[n] = m
                m.line = ""
            if r.random() < 0.3:
                s.opts.append("-UD2")
                s.macros.pop("D2")
        body = ""
        for _ in range(r.randrange(5, 40)):
            body += s.line("m.c")
        if r.random() < 0.08:
            # mutual recursion of object-like macros
            k = r.randrange(2, 6)
            for i in range(k):
                body += "#define R%d a%d R%d\n" % (i, i, (i + 1) % k)
            body += "R0 R%d\n" % (k - 1)
            s.f("mutual recursion")
        if r.random() < 0.05:
            body += "/*" + "x" * r.choice([100, 5000, 20000]) + "\n" * 5 + "*/\n" + s.mark() + "\n"
            s.f("long comment")
        if r.random() < 0.05:
            body += " ".join(s.toks(1, 0)[0] for _ in range(r.randrange(100, 3000))).replace("/ /", "/").replace("/ *", "/").replace("\n", " ") + "\n" + s.mark() + "\n"
            s.f("long line")
        if r.random() < 0.03:
            body += "\n" * r.randrange(9, 3000) + s.mark() + " __LINE__\n"
        if r.random() < 0.1:
            body = body.replace("{", "??<", 2).replace("|", "??!", 1).replace("#", "??=", 1)
            s.f("trigraph")
        if r.random() < 0.05:
            body = body[:-1]
        s.files["m.c"] = body
        return s.files, s.opts
