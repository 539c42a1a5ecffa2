S = "lcc/src/"
CPP = "lcc/cpp/"
SEEDS = []
HEAD = r'''#!/bin/bash
# run with cwd /repo after the build
repo=$PWD
t=$(mktemp -d) || exit 9
trap 'rm -rf "$t"' EXIT
B=$repo/bin/linux
[ -x "$B/q3asm" ] || B=$repo
cd "$t" || exit 9
asan() { # a tool, built with AddressSanitizer
    case $1 in q3cpp) d=cpp;; q3rcc) d=src;; lcc) d=etc;; esac
    gcc -g -O1 -fsanitize=address -fno-sanitize-recover=all -w -I"$repo/lcc/$d" -o "$t/$1" "$repo"/lcc/$d/*.c -lm || exit 9
    export ASAN_OPTIONS=detect_leaks=0
}
compile() { timeout 60 "$B/lcc" -DQ3_VM -S -Wf-target=bytecode "$@"; }
# compile and run a.c; vmMain must return 42
run() {
    compile -o a.asm a.c || return 1
    timeout 60 "$B/q3asm" -o a a.asm || return 2
    timeout 60 "$repo/q3vm" a.qvm > out.txt 2>&1
    [ $? = 42 ]
}
'''


def add(id, prop, edits, needs, breaks, body, files=None):
    f = {"demo.sh": HEAD + body}
    f.update(files or {})
    SEEDS.append(dict(id=id, property=prop, edits=edits, needs=needs, breaks=breaks, files=f))


add("lc01-stale-load", "C30",
    [(S + "dag.c", """			    (!isaddrop((*q)->node.kids[0]->op)
			     || (*q)->node.kids[0]->syms[0] == p)) {""", """			    isaddrop((*q)->node.kids[0]->op) &&
			    (*q)->node.kids[0]->syms[0] == p) {""")],
    "a pointer to a variable, both used in one basic block, the variable assigned between two loads through the pointer",
    "a load through a pointer is not repeated after the variable it points to was assigned by name",
    r'''cat > a.c <<'X'
int vmMain(int a, int b) { int v[1], x, y, *p, z; p = a ? v : &x; x = 5; y = *p; x = 42; z = *p; return y == 5 ? z : 1; }
X
run
''')

add("lc02-switch-growth", "C30",
    [(S + "stmt.c", "	if (swp->ncases >= swp->size)\n		{", "	if (swp->ncases > swp->size)\n		{")],
    "a switch with more than 512 cases",
    "the table of cases grows one case too late: the 513th overwrites the label of the first",
    r'''{
echo 'int vmMain(int a, int b) { int r = 0, i; for (i = -100; i < 2000; i++) switch (i) {'
for i in $(seq 0 3 1899); do echo "case $i: r += $((i % 7)); break;"; done
echo 'default: r ^= i; }'
echo '{ int k = 0, v; for (i = -100; i < 2000; i++) { if (i >= 0 && i < 1900 && i % 3 == 0) { v = i % 7; k += v; } else k ^= i; } return r == k ? 42 : 1; } }'
} > a.c
run
''')

add("lc03-fold-complement", "C34",
    [(S + "simp.c", "cnsttree(ty, (long)extend((~l->u.v.i)&ones(8*ty->size), ty))", "cnsttree(ty, (long)(~l->u.v.i&ones(8*ty->size)))")],
    "the complement of a constant that is compared or shifted in a constant expression",
    "~0 is a large positive value while the compiler folds",
    r'''cat > a.c <<'X'
int t[~1 < 0 ? 42 : 7];
int vmMain(int a, int b) { return sizeof t / sizeof t[0]; }
X
run
''')

add("lc04-forgotten-hideset", "C31",
    [(CPP + "macro.c", "				tp->hideset = unionhideset(tp->hideset, hs);", "				tp->hideset = hs;")],
    "a macro that contains its own name, in the argument of another macro",
    "a token of an expanded argument forgets the macro it must not be expanded by again",
    r'''cat > a.c <<'X'
#define f(x) x
int foo = 41;
#define foo foo + 1
int vmMain(int a, int b) { return f(foo); }
X
run
''')

add("lc05-bitfield-spill", "C30",
    [(S + "decl.c", "		|| bits - 1 + p->bitsize > 8*unsignedtype->size) {", "		|| bits + p->bitsize > 8*unsignedtype->size + 1 + (p->bitsize == 1)) {")],
    "a bit-field of one bit after fields that fill a word",
    "the field is laid out in bit 32 of the word before",
    r'''cat > a.c <<'X'
struct s { unsigned a : 20; unsigned b : 12; unsigned c : 1; unsigned d : 3; };
struct s v;
int vmMain(int a, int b) { v.a = 1; v.b = 0; v.c = 1; v.d = 5; if (v.a != 1 || v.b != 0 || v.d != 5) return 1; return sizeof v == 8 && v.c == 1 ? 42 : 2; }
X
run
''')

add("lc06-arg-slot", "C30",
    [(S + "bytecode.c", "		maxargoffset = (argoffset > maxargoffset ? argoffset : maxargoffset);\n", "		maxargoffset = (argoffset >= maxargoffset + 8 || maxargoffset < 8 ? argoffset : maxargoffset);\n")],
    "a function that calls functions with n and later with n+1 arguments, n >= 2",
    "the frame of the caller has too little room for arguments",
    r'''cat > a.c <<'X'
int g(int a, int b);
int h(int a, int b, int c);
int vmMain(int a, int b) { int v = 38; a = g(1, 1); b = h(1, 1, 1); return v + a + b; }
int g(int a, int b) { return a + b; }
int h(int a, int b, int c) { int l = a; c = 100; return l + b; }
X
run
''')

add("lc07-octal-escape", "C30",
    [(S + "lex.c", "			if (*cp >= '0' && *cp <= '7')\n				c = (c<<3) + *cp++ - '0';\n		}", "			if (*cp >= '0' && *cp <= '7' && c < 16)\n				c = (c<<3) + *cp++ - '0';\n		}")],
    "an octal escape sequence of three digits with a value of 0200 or more",
    "the third digit is a character of its own",
    r'''cat > a.c <<'X'
char s[] = "\377\101";
int vmMain(int a, int b) { return sizeof s == 3 && s[0] == -1 && s[1] == 65 ? 42 : 1; }
X
run
''')

add("lc08-unsigned-div-fold", "C34",
    [(S + "simp.c", "			foldcnst(U,u,/);", "			if (l->op == CNST+U && r->op == CNST+U)\n				return cnsttree(ty, (unsigned long)((long)(int)l->u.v.u / (long)(int)r->u.v.u));")],
    "an unsigned constant of 2^31 or more divided by a constant",
    "constant unsigned division is signed",
    r'''cat > a.c <<'X'
int t[4294967254u / 4000000000u * 42u];
int vmMain(int a, int b) { return sizeof t / sizeof t[0]; }
X
run
''')

add("lc09-splice-at-buffer-end", "C33",
    [(CPP + "cpplex.c", "	while (s->inp+1 >= s->inl && fillbuf(s)!=EOF)", "	while (s->inp+1 > s->inl && fillbuf(s)!=EOF)")],
    "a line splice whose backslash is the last character of a buffer of 4096 bytes",
    "the splice is not removed",
    r'''echo 'int vmMain(int a, int b) { int r = 0;' > a.c
for i in $(seq 4600); do printf 'r  \\\n+= \\\n%d;\n' 1; done >> a.c
echo 'return r - 4558; }' >> a.c
run
''')

add("cp01-if-unsigned-right", "C31",
    [(CPP + "eval.c", "			if (v1.type==UNS || v2.type==UNS)\n				rtype = UNS;\n			else\n				rtype = SGN;\n			if (v1.type==UND", "			rtype = v1.type==UNS ? UNS : SGN;\n			if (v1.type==UND")],
    "a comparison or division in #if where only the right operand is unsigned and the left one is negative",
    "the right operand of a binary operator in #if is not considered for the type of the result",
    r"""cat > a.c <<'X'
#if -1 < 1u
int r = 1;
#else
int r = 42;
#endif
int vmMain(int a, int b) { return r; }
X
run
""")

add("cp02-stringify-charconst", "C31",
    [(CPP + "macro.c", "		instring = tp->type==STRING || tp->type==CCON;", "		instring = tp->type==STRING;")],
    "# applied to an argument with a character constant that holds a backslash or double quote",
    "escapes in character constants are not escaped again by #",
    r"""cat > a.c <<'X'
#define S(x) #x
int vmMain(int a, int b) { char *p = S('\t'); return sizeof S('\t') == 5 && p[0] == '\'' && p[1] == '\\' && p[2] == 't' ? 42 : 1; }
X
run
""")

add("cp03-include-order", "C31",
    [(CPP + "include.c", "	for (i=NINCLUDE-2; i>=0; i--) {\n		if (includelist[i].file==NULL) {", "	for (i=0; i<NINCLUDE-1; i++) {\n		if (includelist[i].file==NULL) {"), (CPP + "include.c", "	if (i<0)\n", "	if (i==NINCLUDE-1)\n")],
    "two -I directories that both hold the header",
    "-I directories are searched from the last to the first",
    r"""mkdir p q
echo '#define R 42' > p/h.h
echo '#define R 1' > q/h.h
cat > a.c <<'X'
#include <h.h>
int vmMain(int a, int b) { return R; }
X
compile -Ip -Iq -o a.asm a.c || exit 1
timeout 60 "$B/q3asm" -o a a.asm || exit 2
timeout 60 "$repo/q3vm" a.qvm > out.txt 2>&1
[ $? = 42 ]
""")

add("cp04-if-octal-char", "C31",
    [(CPP + "eval.c", "						n <<= 3;\n						n += i;\n					}\n				}\n			} else", "						n = (n << 3) + (i & 3);\n					}\n				}\n			} else")],
    "an octal escape of three digits with a last digit above 3 in #if",
    "the last digit of octal escapes in #if is cut to two bits",
    r"""cat > a.c <<'X'
#if '\105' == 69
int r = 42;
#else
int r = 1;
#endif
int vmMain(int a, int b) { return r; }
X
run
""")

add("er01-fewer-parameters", "C32",
    [(S + "types.c", "if (*p1 == NULL && *p2 == NULL)", "if (*p1 == NULL)")],
    "pointers to functions of which one has more parameters, assigned in one of the two directions",
    "prototypes are compatible although one of them has further parameters: calls with missing arguments are compiled",
    r'''cat > a.c <<'X'
int f(int, int), g(int);
int (*p)(int) = f;
int vmMain(int a, int b) { return 42; }
X
cat > b.c <<'X'
int f(int, int), g(int);
int (*p)(int, int) = g;
int vmMain(int a, int b) { return 42; }
X
cat > c.c <<'X'
int f(int, int), g(int);
int (*p)(int) = g, (*q)(int, int) = f;
int vmMain(int a, int b) { return 42; }
X
compile -o c.asm c.c || exit 1
compile -o a.asm a.c && exit 1
compile -o b.asm b.c && exit 1
exit 0
''')

add("er02-duplicate-case", "C32",
    [(S + "stmt.c", "swp->values[k-1] >= val", "swp->values[k-1] > val")],
    "a switch with the same case twice",
    "the duplicate is not noticed: one of the two groups is never reached",
    r'''cat > a.c <<'X'
int vmMain(int a, int b) { switch (a) { case 1: return 3; case 2: return 4; case 'a' - 96: return 5; } return 42; }
X
compile -o a.asm a.c && exit 1
exit 0
''')

add("er03-else-of-includer", "C32",
    [(CPP + "cpp.c", """		if (ifdepth==0 || cursource->ifdepth==0) {
			error(ERROR, "#else with no #if");""", """		if (ifdepth==0) {
			error(ERROR, "#else with no #if");""")],
    "a header with a stray #else, included inside of a group of the includer",
    "the #else of the header ends the group of the includer: the rest of it is skipped without a message",
    r'''printf '#else\n' > x.h
cat > a.c <<'X'
int vmMain(int a, int b) { int r = 42;
#if 1
#include "x.h"
r = 42 + a;
#endif
return r; }
X
compile -o a.asm a.c && exit 1
exit 0
''')

add("dr01-killed-compiler", "C36",
    [("lcc/etc/lcc.c", "status |= 0400;", "status |= 0;")],
    "the compiler is ended by a signal",
    "lcc reports success although the compiler was killed",
    r'''mkdir b
cp "$B/lcc" "$B/q3cpp" b/
printf '#!/bin/sh\nkill -9 $$\n' > b/q3rcc
chmod +x b/q3rcc
echo 'int vmMain(int a, int b) { return 42; }' > a.c
timeout 60 b/lcc -S -Wf-target=bytecode -o a.asm a.c && exit 1
[ ! -e a.asm ] || exit 1
exit 0
''')

add("er05-volatile-dropped", "C32",
    [(S + "enode.c", """	&& (  (isconst(xty->type)    || !isconst(yty->type))
	   && (isvolatile(xty->type) || !isvolatile(yty->type))))
		return xty;

	if ((""", """	&& (  (isconst(xty->type)    || !isconst(yty->type))
	   || (isvolatile(xty->type) || !isvolatile(yty->type))))
		return xty;

	if ((""")],
    "a pointer to const assigned to void *",
    "the conversion to void * silently drops const",
    r'''cat > a.c <<'X'
const int c = 1;
int vmMain(int a, int b) { void *p = &c; *(int *)p = 3; return 42; }
X
compile -o a.asm a.c && exit 1
exit 0
''')

add("er06-line-after-splice", "C32",
    [(CPP + "cpp.c", "		if (cursource->lineinc>1) {", "		if (cursource->lineinc>2) {")],
    "a line continued with a backslash once, and an error behind it",
    "messages behind a continued line name the line before",
    r'''cat > a.c <<'X'
int x = 1 + \
2;
int vmMain(int a, int b) {
return y;
}
X
compile -o a.asm a.c 2> err && exit 1
grep -q 'a.c:4: undeclared' err
''')

add("er07-case-in-inner-loop", "C32",
    [(S + "stmt.c", "	case SWITCH:   swstmt(loop, genlabel(2), lev + 1);", "	case SWITCH:   swstmt(loop ? loop : lev, genlabel(2), lev + 1);")],
    "continue in a switch outside of all loops, the switch inside of another statement",
    "continue in a switch outside of loops is accepted",
    r'''cat > a.c <<'X'
int vmMain(int a, int b) { if (a) switch (a) { case 1: continue; } return 42; }
X
compile -o a.asm a.c && exit 1
exit 0
''')


add("rb01-row-growth", "C35",
    [(CPP + "tokens.c", "	while (size > trp->max)\n", "	for (nby = 0; size > trp->max && nby < 6; nby++)\n")],
    "a short macro with an argument of many tokens",
    "the row of tokens is grown at most six times: q3cpp writes behind it",
    r'''asan q3cpp
{ echo '#define F(x) x'; printf 'int y = F(0'; for i in $(seq 3000); do printf ' + x'; done; echo ');'; } > a.c
timeout 60 ./q3cpp a.c a.i > out.txt 2>&1 && [ -s a.i ]
''')

add("rb02-many-arguments", "C35",
    [(CPP + "macro.c", "			if (*narg>=NARG-1)", "			if (*narg>=10*NARG)")],
    "a macro called with more than 32 arguments",
    "the arguments are written behind the table for them",
    r'''{ printf '#define F(a) a\nint x[] = { F('; for i in $(seq 200); do printf '%d, ' $i; done; echo '0) };'; echo 'int vmMain(int x, int b) { return 42; }'; } > a.c
compile -o a.asm a.c > out.txt 2>&1
rc=$?
[ $rc != 0 ] && timeout 20 "$B/q3cpp" a.c > out2.txt 2>&1
[ $? = 1 ]
''')


add("ob01-elided-struct-tail", "C30",
    [(S + "init.c", "		else if (n < ty->size)\n			(*IR->space)(ty->size - n);", "		else if (n < ty->size && (isarray(ty) || lev < 2))\n			(*IR->space)(ty->size - n);")],
    "a struct in a struct in another aggregate, whose initializer ends early",
    "the rest of the inner struct is not cleared but left out: everything behind it moves",
    r'''cat > a.c <<'X'
struct { int k; struct { struct { int a, b; } p; int c; } q[2]; int z; } v = { 1, { { { 2 }, 3 }, { { 4, 5 } } }, 6 };
int vmMain(int a, int b) { return v.q[0].p.b == 0 && v.q[0].c == 3 && v.q[1].p.a == 4 && v.q[1].p.b == 5 && v.z == 6 ? 42 : 1; }
X
run
''')

add("ob02-field-bytes", "C30",
    [(S + "init.c", "	n = (n + 7)/8;\n", "	n = n/8 + 1;\n")],
    "initialized bit-fields that fill a number of bytes exactly",
    "one more byte is written: what follows moves or the initializer is refused",
    r'''cat > a.c <<'X'
struct { unsigned a : 16, b : 16; int c; } v[2] = { { 1, 2, 3 }, { 4, 5, 6 } };
int vmMain(int a, int b) { return v[0].a == 1 && v[0].b == 2 && v[0].c == 3 && v[1].a == 4 && v[1].b == 5 && v[1].c == 6 ? 42 : 1; }
X
run
''')

add("dr02-last-status", "C36",
    [("lcc/etc/lcc.c", "	if (status)\n		errcnt++;\n	return status;", "	errcnt = status != 0;\n	return status;")],
    "several files in one command, one of them wrong, the last one right",
    "lcc reports success although a file was not compiled",
    r'''echo 'int f(void) { return x; }' > a.c
echo 'int g(void) { return 1; }' > b.c
compile a.c b.c > out.txt 2>&1
[ $? != 0 ] && [ -s b.asm ]
''')

add("dr03-interrupted", "C36",
    [("lcc/etc/lcc.c", "static void interrupt(int n) {\n	rm(rmlist);\n", "static void interrupt(int n) {\n	if (verbose)\n		rm(rmlist);\n")],
    "lcc is interrupted or terminated while it compiles",
    "the temporary file is left",
    r'''mkdir bin tmp
cp "$B/lcc" "$B/q3cpp" bin
printf '#!/bin/sh\nkill -TERM $PPID\nsleep .5\n' > bin/q3rcc
chmod +x bin/q3rcc
echo 'int x;' > a.c
TMPDIR=$t/tmp TMP=$t/tmp TEMP=$t/tmp timeout 60 bin/lcc -S a.c > out.txt 2>&1
[ $? != 0 ] && [ -z "$(ls tmp)" ]
''')

add("dr04-output-of-two", "C36",
    [("lcc/etc/lcc.c", "*argv[i] != '-' && suffix(argv[i], suffixes, 3) >= 0)\n			nf++;", "*argv[i] != '-' && suffix(argv[i], suffixes, 1) >= 0)\n			nf++;")],
    "-o with a .c and a .i file",
    "-o is not ignored: the second file overwrites the output of the first",
    r'''echo 'int a;' > a.c
echo 'int b;' > b.i
compile -o out.asm a.c b.i > out.txt 2>&1
[ -s a.asm ] && [ -s b.asm ]
''')

add("dr05-option-of-preprocessor", "C36",
    [("lcc/etc/lcc.c", "			case 'p':\n				plist = append(&arg[3], plist);", "			case 'p':\n				plist = append(arg[3] == '-' ? &arg[3] : arg, plist);"),
     ("lcc/etc/lcc.c", "	case 'I':	/* -Idir */\n		plist = append(arg, plist);", "	case 'I':	/* -Idir */\n		if (!find(arg, plist))\n			plist = append(arg, plist);")],
    "-Da=b, -Ua, -Da=b: the same option given twice with another in between",
    "the repeated option is dropped, the one in between wins",
    r'''printf '#ifndef A\n#define A 0\n#endif\nint vmMain(int x, int b) { return A; }\n' > a.c
compile -DA=42 -UA -DA=42 -o a.asm a.c && grep -q 42 a.asm
''')

add("rb04-if-stack", "C35",
    [(CPP + "cpp.c", "	case KIF:\n		if (++ifdepth >= NIF)", "	case KIF:\n		if (++ifdepth > NIF)")],
    "33 nested #if groups",
    "the state of the 33rd is written behind the table",
    r'''asan q3cpp
{ for i in $(seq 32); do echo '#if 1'; done; echo 'int x;'; for i in $(seq 32); do echo '#endif'; done; } > a.c
timeout 60 ./q3cpp a.c a.i > out.txt 2>&1
[ $? = 1 ] && grep -q 'too deeply nested' out.txt
''')

add("rb05-long-literal", "C35",
    [(S + "lex.c", "			if (n++ < BUFSIZE)\n", "			if (n++ <= BUFSIZE + 8)\n")],
    "a string literal of more than 4096 characters",
    "the characters are written behind the buffer",
    r'''asan q3rcc
{ printf 'char s[] = "'; for i in $(seq 420); do printf 'abcdefghij'; done; echo '";'; } > a.i
timeout 60 ./q3rcc -target=bytecode a.i a.asm > out.txt 2>&1
[ $? = 1 ] && grep -q 'too long' out.txt
''')

add("lc10-for-once", "C30",
    [(S + "stmt.c", "e1 = simplify(op, e2->type, e1, e2->kids[1]);", "e1 = simplify(op, e2->type, e2->kids[1], e1);")],
    "a for loop with a constant start and a constant limit whose condition is false at the start",
    "the body is executed once",
    r'''cat > a.c <<'X'
int vmMain(int a, int b) { int i, n = 0; for (i = 5; i < 3; i++) n++; for (i = 3; i < 5; i++) n += 21; return n; }
X
run
''')

add("lc11-bitfield-constant", "C30",
    [(S + "enode.c", "if (n&(1<<(fieldsize(l->u.field)-1)))", "if (n&(1<<fieldsize(l->u.field)))")],
    "the value of an assignment of a constant to a signed bit-field that has its sign bit set in the field",
    "the value is not sign extended",
    r'''cat > a.c <<'X'
struct { int a : 3, b : 5; } s;
int vmMain(int a, int b) { int x = (s.b = 21), y = (s.a = 2), z = (s.b = -4); return x == -11 && s.b == -4 && y == 2 && z == -4 ? 42 : 1; }
X
run
''')

add("lc12-effect-of-unsigned-comparison", "C34",
    [(S + "simp.c", "			return tree(RIGHT, inttype, L, cnsttree(inttype, (long)(V))); }", "			return cnsttree(inttype, (long)(V)); }")],
    "an unsigned comparison that is constant (>= 0) of the result of a call",
    "the call is not made",
    r'''cat > a.c <<'X'
int n;
unsigned f(void);
int vmMain(int a, int b) { if (f() >= 0) n += 40; if (f() >= 0u && n == 42) return n; return 1; }
unsigned f(void) { return n++; }
X
run
''')

add("cp05-paste-in-argument", "C31",
    [(CPP + "macro.c", "		if (lp->type==DSHARP)\n			lp->type = DSHARP1;", "		if (lp->type==DSHARP && parens==0)\n			lp->type = DSHARP1;")],
    "## between parentheses in the argument of a macro",
    "the operator of the argument is taken for one of the macro",
    r'''printf '#define f(x) x|\n#define g(x) #x\nf(a ## b) f((a ## b)) g((a ## b))\n' > a.c
"$B/q3cpp" a.c a.i > out.txt 2>&1 && [ "$(grep -v '^#' a.i | grep . | tr -d ' ')" = 'a##b|(a##b)|"(a##b)"' ]
''')

add("in01-field-gap", "C30",
    [(S + "init.c", "			if (fieldsize(p) + fieldright(p) > n)\n				n = fieldsize(p) + fieldright(p);\n		} else {\n			if (fieldsize(p) + fieldleft", "			n += fieldsize(p);\n		} else {\n			if (fieldsize(p) + fieldleft")],
    "a structure with an unnamed field between others, initialized only in part or followed by a member behind padding",
    "the bytes of the last fields are not written",
    r'''cat > a.c <<'X'
struct { int a : 7; int : 12; unsigned b : 10; int c; } s = { 5, 777, 9 };
int vmMain(int a, int b) { return s.a == 5 && s.b == 777 && s.c == 9 ? 42 : 1; }
X
run
''')

add("lc13-call-without-arguments", "C30",
    [(S + "dag.c", "		      list(p);\n		      reset();\n		      cfunc->u.f.ncalls++;", "		      list(p);\n		      if (tp->kids[1] || tp->op == CALL+B)\n		      	reset();\n		      cfunc->u.f.ncalls++;")],
    "a call without arguments of a function that changes a variable which is read before and behind the call in one expression",
    "the old value is used behind the call",
    r'''cat > a.c <<'X'
int g = 1;
int f(void);
int vmMain(int a, int b) { int x, y; y = (x = g, f(), g); return x == 1 && y == 2 ? 42 : 1; }
int f(void) { return ++g; }
X
run
''')

add("wn01-inner-block", "C37",
    [(S + "decl.c", "else if (p->scope >= LOCAL && p->sclass != EXTERN)\n			warning", "else if (p->scope == LOCAL && p->sclass != EXTERN)\n			warning")],
    "an object which is not used, declared in an inner block, with -A -A",
    "no warning that it is not referenced",
    r'''printf 'int f(int a)\n{\nif (a) {\nint unused;\na++;\n}\nreturn a;\n}\n' > a.c
"$B/lcc" -A -A -S -Wf-target=bytecode -o a.asm a.c > out.txt 2>&1 && grep -q 'a.c:[34]: warning: local .int unused. is not referenced' out.txt
''')

add("wn02-field-sign", "C37",
    [(S + "init.c", "i > (int)(fieldmask(p)>>1)))", "i > (int)fieldmask(p)))")],
    "a signed bit-field initialized with a positive number that needs the bit of the sign",
    "no warning: the value becomes negative silently",
    r'''printf 'struct { int a : 4, b : 4; } s = { 7,\n8 };\n' > a.c
"$B/lcc" -S -Wf-target=bytecode -o a.asm a.c > out.txt 2>&1 && [ "$(grep -c 'a.c:2: warning: initializer exceeds bit-field width' out.txt)" = 1 ]
''')
