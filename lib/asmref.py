"""Independent assembler for the lcc bytecode assembly language: the oracle of
the q3asm checks.  Written from the language's description (one instruction
per line, operands are number or symbol plus/minus offsets, objects live in
the lit segment if they start with a character, in the data segment if they
start with a word, bss is only sized)."""
import struct

# instruction set of the virtual machine, in encoding order
VM_OPS = ("UNDEF IGNORE BREAK ENTER LEAVE CALL PUSH POP CONST LOCAL JUMP EQ NE LTI LEI GTI GEI LTU LEU GTU GEU "
          "EQF NEF LTF LEF GTF GEF LOAD1 LOAD2 LOAD4 STORE1 STORE2 STORE4 ARG BLOCK_COPY SEX8 SEX16 NEGI ADD SUB "
          "DIVI DIVU MODI MODU MULI MULU BAND BOR BXOR BCOM LSH RSHI RSHU NEGF ADDF SUBF DIVF MULF CVIF CVFI").split()
OPNUM = {n: i for i, n in enumerate(VM_OPS)}


def _mn():
    m = {"BREAK": "BREAK", "ASGNB": "BLOCK_COPY", "JUMPV": "JUMP", "CVFI4": "CVFI", "CVIF4": "CVIF", "ADDRGP4": "CONST", "ADDP": "ADD",
         "NEGF4": "NEGF", "NEGI4": "NEGI", "CVII4": "SEX"}
    for t in "FIPU":
        m["CNST%s4" % t] = "CONST"
        m["ASGN%s4" % t] = "STORE4"
        m["INDIR%s4" % t] = "LOAD4"
    for t in "IU":
        for s, in "12":
            m["CNST%s%s" % (t, s)] = "CONST"
            m["ASGN%s%s" % (t, s)] = "STORE" + s
            m["INDIR%s%s" % (t, s)] = "LOAD" + s
    for t in "IPU":
        m["ADD%s4" % t] = "ADD"
        m["SUB%s4" % t] = "SUB"
    for t in "IU":
        for o, v in (("LSH", "LSH"), ("BAND", "BAND"), ("BOR", "BOR"), ("BXOR", "BXOR"), ("BCOM", "BCOM"), ("EQ", "EQ"), ("NE", "NE")):
            m[o + t + "4"] = v
        for o in ("MOD", "RSH", "DIV", "MUL", "GE", "GT", "LE", "LT"):
            m[o + t + "4"] = o + t
    for o in ("ADD", "SUB", "DIV", "MUL", "EQ", "GE", "GT", "LE", "LT", "NE"):
        m[o + "F4"] = o + "F"
    return m


MNEMONICS = _mn()
IGNORED = "INDIRB CVII1 CVII2 CVIU4 CVPU4 CVUI4 CVUP4 CVUU4 CVUU1 CVUU2".split()
INVALID = "CVFF4 LOADB4 LOADF4 LOADI4 LOADP4 LOADU4".split()
NODATA = ("export", "import", "line", "file")
NO_OPERAND = ("CVIF", "CVFI")
CODE, DATA, LIT, BSS = range(4)
STACK = 0x10000
MAXIMG = 0x400000


class AsmError(Exception):
    def __init__(self, kind, file=None, line=None):
        Exception.__init__(self, kind, file, line)
        self.kind, self.file, self.line = kind, file, line


class Unsupported(Exception):
    """input whose meaning the language description leaves open"""


def num(s):
    t = s[1:] if s[:1] in "+-" else s
    n = 0
    k = 0
    while k < len(t) and t[k].isdigit() and t[k].isascii():
        n = n * 10 + int(t[k])
        k += 1
    if k < len(t) or k == 0:
        raise Unsupported("number " + s)
    if s[0] == "-":
        n = -n
    if not -0x80000000 <= n <= 0xFFFFFFFF:
        raise Unsupported("number out of range")
    return n


def split_expr(e):
    """-> (first, [(sign, text)])"""
    cuts = [i for i in range(1, len(e)) if e[i] in "+-"]
    parts = []
    cuts.append(len(e))
    first = e[:cuts[0]]
    for a, b in zip(cuts, cuts[1:]):
        if b - a < 2:
            raise Unsupported("empty offset")
        parts.append((e[a], e[a + 1:b]))
    return first, parts


def align(n, a):
    return (n + a - 1) // a * a


class Program:
    pass


def assemble(files):
    """files: list of (name, text).  Returns Program with .image (bytes of the
    .qvm), .symbols {name: (segment, value)}, .address(name)."""
    syms = {}
    used = [0, 4, 0, 0]     # code size is kept apart
    code = []               # (opcode, operand: None | int | (fileidx, expr, kind))
    mem = {DATA: bytearray(4), LIT: bytearray()}
    fix = []                # (segment, offset, fileidx, expr)
    order = []
    locs = []
    cur = CODE
    last = None             # most recent symbol
    obj_off, obj_align = 0, 1
    frame = (0, 0)
    inproc = False
    argofs = 0

    def define(name, fi, value):
        nonlocal last
        if not name:
            raise Unsupported("empty name")
        if name[0] == "$":
            name = "%s_%d" % (name, fi)
        if name in syms:
            raise AsmError("dup", files[fi][0], ln)
        syms[name] = [cur, value]
        order.append(name)
        last = name

    def grow(seg, n):
        used[seg] += n
        if seg in mem:
            if used[seg] > MAXIMG:
                raise AsmError("size", files[fi][0], ln)
            mem[seg].extend(bytes(n))
        elif used[seg] > 0x40000000:
            raise AsmError("size", files[fi][0], ln)

    def place(seg):
        nonlocal cur, obj_off
        if cur == seg:
            return
        if cur == BSS:
            raise Unsupported("initialized data in bss")
        if cur == CODE:
            raise Unsupported("data in code")
        if used[cur] != obj_off:
            return
        if last is None or syms[last] != [cur, obj_off]:
            raise Unsupported("unlabelled object")
        cur = seg
        grow(seg, -used[seg] % obj_align)
        obj_off = used[seg]
        syms[last] = [seg, obj_off]

    def put(b):
        if used[cur] + len(b) > MAXIMG - 8:
            raise Unsupported("close to the size limit")
        mem[cur].extend(b)
        used[cur] += len(b)

    for fi, (fname, text) in enumerate(files):
        ln = 0
        if "\0" in text:
            text = text[:text.index("\0")]
        for raw in text.split("\n"):
            ln += 1
            if len(raw) >= 1024 and not any(c == ";" and (i == 0 or raw[i - 1] <= " ") for i, c in enumerate(raw[:1024])):
                raise AsmError("line", fname, ln)
            if any(ord(c) > 126 for c in raw):
                raise Unsupported("non-ASCII")
            # ';' starts a comment only at the start of a token
            w = []
            for t in raw.translate({i: " " for i in range(1, 33)}).split(" "):
                if t[:1] == ";":
                    break
                if t:
                    w.append(t)
            if not w:
                continue
            op = w[0]
            a = lambda i: w[i] if i < len(w) else ""
            v = lambda i: num(a(i))
            pos = (fname, ln)
            if op in IGNORED or op in NODATA:
                continue
            if op in INVALID:
                raise AsmError("opcode", *pos)
            if not inproc and op.startswith(("ARG", "RET", "ADDRF", "ADDRL")):
                raise Unsupported("frame access outside of a function")
            if op in MNEMONICS:
                o = MNEMONICS[op]
                k = 1
                if o == "SEX":
                    if a(1)[:1] == "1":
                        o = "SEX8"
                    elif a(1)[:1] == "2":
                        o = "SEX16"
                    else:
                        raise AsmError("sex", *pos)
                    k = 2
                code.append((OPNUM[o], (fi, a(k), "round" if o == "BLOCK_COPY" else "") if a(k) and o not in NO_OPERAND else None))
            elif op.startswith("CALL"):
                code.append((OPNUM["CALL"], None))
                argofs = 0
            elif op.startswith("ARG"):
                if 8 + argofs >= 256:
                    raise AsmError("args", *pos)
                code.append((OPNUM["ARG"], bytes([8 + argofs])))
                argofs += 4
            elif op.startswith("RET"):
                code.append((OPNUM["LEAVE"], 8 + sum(frame)))
            elif op.startswith("pop"):
                code.append((OPNUM["POP"], None))
            elif op.startswith("ADDRF"):
                if not a(1):
                    raise Unsupported("no operand")
                code.append((OPNUM["LOCAL"], (fi, a(1), 16 + sum(frame))))
            elif op.startswith("ADDRL"):
                if not a(1):
                    raise Unsupported("no operand")
                code.append((OPNUM["LOCAL"], (fi, a(1), 8 + frame[1])))
            elif op.startswith("LABEL"):
                if cur == CODE:
                    define(a(1), fi, len(code))
                else:
                    define(a(1), fi, used[cur])
                    obj_off = used[cur]
            elif op == "proc":
                define(a(1), fi, len(code))
                inproc = True
                if argofs:
                    raise Unsupported("arguments without a call")
                frame = (align(v(2), 4), align(v(3), 4))
                if max(frame) > 0x7FFFFFF0:
                    raise Unsupported("frame size")
                if min(frame) < 0 or 8 + sum(frame) >= 32767:
                    raise AsmError("frame", *pos)
                code.append((OPNUM["ENTER"], 8 + sum(frame)))
                if cur != CODE:
                    raise Unsupported("proc outside of code")
            elif op == "endproc":
                if argofs or not inproc:
                    raise Unsupported("arguments without a call")
                inproc = False
                code.append((OPNUM["PUSH"], None))
                code.append((OPNUM["LEAVE"], 8 + sum(frame)))
            elif op == "equ":
                if cur != CODE:
                    raise Unsupported("equ outside of code")
                define(a(1), fi, v(2))
            elif op == "address":
                if not a(1):
                    raise Unsupported("no operand")
                place(DATA)
                fix.append((cur, used[cur], fi, a(1), pos))
                put(bytes(4))
            elif op == "byte":
                n, x = v(1), v(2)
                if n == 2:
                    raise AsmError("byte2", *pos)
                if n not in (1, 4):
                    raise Unsupported("byte size")
                place(LIT if n == 1 else DATA)
                put((x & (0xFF if n == 1 else 0xFFFFFFFF)).to_bytes(n, "little"))
            elif op == "skip":
                if cur == CODE:
                    raise Unsupported("skip in code")
                if v(1) < 0:
                    raise AsmError("skip", *pos)
                grow(cur, v(1))
            elif op == "align":
                n = v(1)
                if n <= 0 or n & (n - 1) or n > 0x7FFFFFFF:
                    raise AsmError("align", *pos)
                if cur == CODE:
                    raise Unsupported("align in code")
                obj_align = n
                grow(cur, -used[cur] % n)
            elif op in ("code", "data", "lit", "bss"):
                cur = ("code", "data", "lit", "bss").index(op)
            else:
                raise AsmError("token", *pos)
            if len(locs) < len(code):
                locs.extend([pos] * (len(code) - len(locs)))
    if argofs:
        raise Unsupported("arguments without a call")
    for s in (DATA, LIT, BSS):
        n = -used[s] % 4
        used[s] += n
        if s in mem:
            mem[s].extend(bytes(n))
    base = [0, 0, used[DATA], used[DATA] + used[LIT]]

    def expr(fi, e, pos):
        first, parts = split_expr(e)
        if first[0] == "-" or first[0].isdigit():
            x = num(first)
        elif first[0] == "+":
            raise Unsupported("leading plus")
        else:
            n = "%s_%d" % (first, fi) if first[0] == "$" else first
            if n not in syms:
                raise AsmError("undef", *pos)
            x = base[syms[n][0]] + syms[n][1]
        for s, t in parts:
            x += num(t) if s == "+" else -num(t)
        return x

    def value(o, pos):
        fi, e, how = o
        x = expr(fi, e, pos)
        if how == "round":
            return align(x, 4)
        return x + (how or 0)

    out = bytearray()
    for (op, o), pos in zip(code, locs):
        out.append(op)
        if o is None:
            continue
        if isinstance(o, bytes):
            out += o
        else:
            x = o if isinstance(o, int) else value(o, pos)
            out += struct.pack("<I", x & 0xFFFFFFFF)
    for seg, off, fi, e, pos in fix:
        mem[seg][off:off + 4] = struct.pack("<I", expr(fi, e, pos) & 0xFFFFFFFF)
    out += bytes(-len(out) % 4)
    if len(out) > MAXIMG - 8:
        raise Unsupported("close to the size limit")
    p = Program()
    bss = used[BSS] + STACK
    p.header = (0x12721444, len(code), 32, len(out), 32 + len(out), used[DATA], used[LIT], bss)
    p.image = struct.pack("<8I", *p.header) + bytes(out) + bytes(mem[DATA]) + bytes(mem[LIT])
    if "_stackStart" in syms or "_stackEnd" in syms:
        raise AsmError("dup")
    p.symbols = {n: tuple(syms[n]) for n in order}
    p.symbols["_stackStart"] = (BSS, used[BSS])
    p.symbols["_stackEnd"] = (BSS, bss)
    p.base = base
    p.code = code
    return p


def map_entries(p):
    """expected set of map lines: (segment, value, name)"""
    return sorted((s, v & 0xFFFFFFFF, n) for n, (s, v) in p.symbols.items() if n[0] != "$")
