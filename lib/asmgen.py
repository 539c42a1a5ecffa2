"""Random programs in lcc bytecode assembly language."""
import asmref

EDGE = [0, 1, 2, 3, 4, 7, 8, 127, 128, 255, 256, 32767, 32768, 65535, 65536, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFF, 0xFFFFFFFE, 0x12345678,
        -1, -2, -128, -129, -32768, -0x7FFFFFFF, -0x80000000]
WITH_OPERAND = [m for m in asmref.MNEMONICS if asmref.MNEMONICS[m] in ("CONST", "BLOCK_COPY") or asmref.MNEMONICS[m][:2] in ("EQ", "NE", "LT", "LE", "GT", "GE")]
PLAIN = [m for m in asmref.MNEMONICS if m not in WITH_OPERAND and m != "CVII4"]
LETTERS = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_"


def number(r):
    k = r.random()
    if k < 0.4:
        return r.choice(EDGE)
    if k < 0.7:
        return r.randrange(-300, 300)
    return r.randrange(-0x80000000, 0x100000000)


class Gen:
    def __init__(self, r, nfiles=None, errors=False):
        self.r = r
        self.nfiles = nfiles or r.choice([1, 1, 2, 2, 3, 4, 6] * 4 + [11, 13, 26])
        self.names = set()
        self.globals = []            # every global name of the program
        self.locals = [[] for _ in range(self.nfiles)]
        self.counts = {}
        self.feat = set()

    def name(self, pre=""):
        r = self.r
        while True:
            k = r.random()
            if k < 0.05:
                n = "".join(r.choice(LETTERS) for _ in range(r.choice([60, 200, 900])))
            elif k < 0.2 and self.names:
                n = r.choice(sorted(self.names)[:50]) + r.choice(LETTERS + "0123456789")    # common prefixes
            else:
                n = r.choice(LETTERS) + "".join(r.choice(LETTERS + "0123456789.$") for _ in range(r.randrange(1, 12)))
            if len(n) < 950 and n not in self.names and n not in ("_stackStart", "_stackEnd"):
                self.names.add(n)
                return n

    def expr(self, fi, plain=False):
        r = self.r
        k = r.random()
        c = self.locals[fi] if r.random() < 0.4 and self.locals[fi] else self.globals
        if plain or k < 0.35 or not c:
            e = str(number(r))
            if r.random() < 0.15:
                e += "%s%d" % (r.choice("+-"), abs(number(r)))
                self.feat.add("num+num")
        else:
            e = r.choice(c)
            self.feat.add("local symbol" if e[0] == "$" else "global symbol")
            while r.random() < 0.3 and len(e) < 980:
                e += "%s%d" % (r.choice("+-"), abs(number(r)))
                self.feat.add("sym+offset")
        return e

    def files(self):
        r = self.r
        plan = []
        # decide on all names first, so that references go forward and across files
        for fi in range(self.nfiles):
            objs = []
            for _ in range(r.choice([0, 1, 3, 6, 12, 25])):
                kind = r.choice(["proc", "proc", "data", "data", "str", "mix", "bss", "jump", "equ", "table"])
                local = kind not in ("equ",) and r.random() < 0.35
                if local:
                    n = "$" + (str(r.randrange(1, 40)) if r.random() < 0.8 else self.name())
                    if n in self.locals[fi]:
                        continue
                    self.locals[fi].append(n)
                else:
                    n = self.name()
                    self.globals.append(n)
                objs.append((kind, n))
            plan.append(objs)
        for fi in range(self.nfiles):
            for _ in range(r.randrange(0, 12)):
                n = "$%d" % r.randrange(100, 400)
                if n not in self.locals[fi]:
                    self.locals[fi].append(n)
                    plan[fi].append(("label", n))
        out = []
        for fi, objs in enumerate(plan):
            out.append(self.file(fi, objs))
        return out

    def emit(self, L, s):
        op = s.split(None, 1)[0] if s.strip() else ""
        self.counts[op] = self.counts.get(op, 0) + 1
        r = self.r
        if r.random() < 0.1:
            s = s.replace(" ", r.choice(["\t", "  ", " \t "]))
            s = r.choice(["", " ", "\t\t"]) + s + r.choice(["", " ", "\t", "\r"])
        if r.random() < 0.05:
            s += r.choice([" ;", " ; comment proc x", "\t;LABELV $1", " ;;\"'"])
        L.append(s)
        if r.random() < 0.03:
            L.append(r.choice(["", "   ", "; only a comment", ";", "\t;12:int main() {", "line 5", 'file "x.c"', "export whatever", "import other", "INDIRB", "CVIU4 4", "CVUU1 4", "CVPU4"]))
        if r.random() < 0.01:
            L.append(r.choice(["", "code ", " " * 1023]) + ";" + "x" * r.choice([1000, 1022, 1023, 5000]))

    def body(self, L, fi, labels):
        r = self.r
        n = r.choice([0, 1, 5, 15, 60])
        args = 0
        at = sorted((r.randrange(n + 1), l) for l in labels)
        for i in range(n + 1):
            while at and at[0][0] <= i:
                self.emit(L, r.choice(["LABELV", "LABELV", "LABEL"]) + " " + at.pop(0)[1])
            if i == n:
                break
            k = r.random()
            if k < 0.12:
                self.emit(L, "ADDRLP4 " + str(r.choice([0, 4, 8, number(r)])) + r.choice(["", "", "+4", "-8"]))
            elif k < 0.24:
                self.emit(L, "ADDRFP4 " + str(r.choice([0, 4, 8, number(r)])) + r.choice(["", "", "+4", "-8"]))
            elif k < 0.34 and args < 62:
                self.emit(L, r.choice(["ARGI4", "ARGP4", "ARGF4", "ARGU4"]))
                args += 1
            elif k < 0.42:
                self.emit(L, r.choice(["CALLI4", "CALLV", "CALLF4", "CALLU4", "CALLP4"]))
                args = 0
            elif k < 0.46:
                self.emit(L, "pop")
            elif k < 0.50:
                self.emit(L, r.choice(["RETI4", "RETF4", "RETV", "RETP4", "RETU4"]))
            elif k < 0.54:
                self.emit(L, "CVII4 " + r.choice("12"))
            elif k < 0.57:
                self.emit(L, r.choice(["CVIF4 4", "CVFI4 4", "CVFI4", "CVIF4"]))
            elif k < 0.60:
                self.emit(L, "ASGNB %d" % r.choice([1, 2, 3, 4, 5, 7, 8, 12, 13, 64, 1000]))
            elif k < 0.80:
                m = r.choice(WITH_OPERAND)
                if m == "ASGNB":
                    m = "CNSTI4"
                self.emit(L, m + " " + self.expr(fi))
            else:
                m = r.choice(PLAIN)
                # an operand is also legal after plain instructions
                self.emit(L, m + (" " + self.expr(fi) if r.random() < 0.05 and asmref.MNEMONICS[m] not in asmref.NO_OPERAND else ""))
        if args:
            self.emit(L, "CALLV")     # lcc never leaves arguments behind
        if args == 62:
            self.feat.add("62 arguments")

    def file(self, fi, objs):
        r = self.r
        L = []
        cur = None
        spare = [n for k, n in objs if k == "label"]
        objs = [o for o in objs if o[0] != "label"]
        if spare:
            objs.append(("proc", self.name()))
        r.shuffle(objs)

        def seg(s):
            nonlocal cur
            # the segment stays in effect between objects, except that the
            # assembler may have moved on to data or lit
            if cur != s or r.random() < 0.1:
                self.emit(L, s)
            cur = s
        nproc = sum(k == "proc" for k, n in objs)
        for kind, n in objs:
            if kind == "proc":
                seg("code")
                if r.random() < 0.5 and n[0] != "$":
                    self.emit(L, "export " + n)
                k = r.randrange(0, 5)
                if k == 4:
                    lo, ar = r.randrange(0, 32000), r.randrange(0, 700)
                else:
                    lo, ar = r.randrange(0, 100), r.randrange(0, 40)
                self.emit(L, "proc %s %d %d" % (n, lo, ar))
                mine = [l for l in spare if r.random() < 1.5 / nproc]
                if nproc == 1:
                    mine = list(spare)
                spare = [l for l in spare if l not in mine]
                nproc -= 1
                self.body(L, fi, mine)
                self.emit(L, "endproc %s %d %d" % (n, lo, ar))
                continue
            if kind == "equ":
                seg("code")
                self.emit(L, "equ %s %d" % (n, number(r)))
                continue
            if kind == "bss":
                seg("bss")
                self.emit(L, "align %d" % r.choice([1, 1, 2, 4, 4, 8, 64]))
                self.emit(L, "LABELV " + n)
                self.emit(L, "skip %d" % r.choice([0, 1, 2, 3, 4, 5, 64, 1000, 0x12345]))
                if r.random() < 0.2:
                    self.emit(L, "skip %d" % r.randrange(20))
                continue
            seg("data" if kind in ("data", "mix", "table") else r.choice(["lit", "data"]))
            if kind == "jump" and r.random() < 0.7:
                seg("lit")
            al = r.choice([1, 2, 4, 4, 4, 8])
            if kind in ("data", "mix", "table", "jump"):
                al = r.choice([4, 4, 4, 8, 16])
            self.emit(L, "align %d" % al)
            self.emit(L, "LABELV " + n)
            if kind in ("jump", "table"):
                for _ in range(r.randrange(1, 12)):
                    self.emit(L, "address " + self.expr(fi))
            elif kind == "data":
                for _ in range(r.randrange(1, 10)):
                    self.emit(L, "byte 4 %d" % number(r))
                if r.random() < 0.3:
                    self.emit(L, "skip %d" % (4 * r.randrange(1, 30)))
            elif kind == "str":
                for _ in range(r.randrange(1, 30)):
                    self.emit(L, "byte 1 %d" % r.choice([0, 10, 65, 127, 128, 255, -1, -128, r.randrange(256)]))
                if r.random() < 0.3:
                    self.emit(L, "skip %d" % r.randrange(1, 10))
            else:
                # an initialized struct
                self.feat.add("struct with members of different sizes")
                first = True
                for _ in range(r.randrange(2, 10)):
                    k = r.random()
                    if k < 0.35:
                        self.emit(L, "byte 4 %d" % number(r))
                    elif k < 0.55:
                        self.emit(L, "address " + self.expr(fi))
                    elif k < 0.9 or first:
                        m = r.randrange(1, 5)
                        for _ in range(m):
                            self.emit(L, "byte 1 %d" % r.randrange(256))
                        if m < 4:
                            self.emit(L, "skip %d" % (4 - m))
                    else:
                        self.emit(L, "skip %d" % (4 * r.randrange(1, 5)))
                    first = False
            cur = None   # the next object names its segment again
        s = "\n".join(L)
        if r.random() < 0.8:
            s += "\n"
        else:
            self.feat.add("no newline at the end")
        return s
