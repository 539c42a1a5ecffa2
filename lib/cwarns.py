"""Questionable constructs: (name, where, questionable form, sound twin, message, number of -A it takes)."""
T = []


def top(name, bad, good, msg, a=0):
    T.append((name, "top", bad, good, msg, a))


def stmt(name, bad, good, msg, a=0):
    T.append((name, "stmt", bad, good, msg, a))


OV = "overflow in constant"
# constants
top("integer constant too large", "unsigned U = 4294967296;", "unsigned U = 4294967295u;", OV)
top("hexadecimal constant too large", "unsigned U = 0x100000000;", "unsigned U = 0xffffffff;", OV)
top("octal constant too large", "unsigned U = 040000000000;", "unsigned U = 037777777777;", OV)
top("constant sum overflows", "int U = 2147483647 + 1;", "int U = 2147483646 + 1;", OV)
top("constant difference overflows", "int U = -2147483647 - 2;", "int U = -2147483647 - 1;", OV)
top("constant product overflows", "int U = 65536 * 32768;", "int U = 65536 * 32767;", OV)
top("constant product of negatives overflows", "int U = -65536 * -32768;", "int U = 65536 * -32768;", OV)
top("negation overflows", "int U = -(-2147483647 - 1);", "int U = -(-2147483646 - 1);", OV)
top("floating sum overflows", "float U = 3e38f + 3e38f;", "float U = 1e38f + 1e38f;", OV)
top("shift overflows", "int U = 3 << 31;", "int U = 3 << 29;", OV)
stmt("shift by a negative number", "{ int U = 1 << -1; U++; }", "{ int U = 1 << 1; U++; }", "shifting an `int' by -1 bits is undefined")
stmt("shift by the width", "{ int U = 1 << 32; U++; }", "{ int U = 1 << 30; U++; }", "shifting an `int' by 32 bits is undefined")
stmt("unsigned shift by the width", "{ unsigned U = 1u << 32; U++; }", "{ unsigned U = 1u << 31; U++; }", "shifting an `unsigned int' by 32 bits is undefined")
stmt("right shift by the width", "{ unsigned U = 1u >> 32; U++; }", "{ unsigned U = 1u >> 31; U++; }", "shifting an `unsigned int' by 32 bits is undefined")
stmt("signed right shift by the width", "{ int U = 1 >> 32; U++; }", "{ int U = 1 >> 31; U++; }", "shifting an `int' by 32 bits is undefined")
stmt("shift of an object by the width", "{ int U = 3; U = U << 32; }", "{ int U = 3; U = U << 31; }", "shifting an `int' by 32 bits is undefined")
stmt("right shift of an object by a negative number", "{ int U = 3; U >>= -1; }", "{ int U = 3; U >>= 1; }", "shifting an `int' by -1 bits is undefined")
stmt("right shift of an unsigned object by the width", "{ unsigned U = 3; U = U >> 33; }", "{ unsigned U = 3; U = U >> 31; }", "shifting an `unsigned int' by 33 bits is undefined")
top("constant does not fit a character", "char U = 128;", "char U = 127;", "overflow in converting constant expression from `int' to `char'")
top("negative constant does not fit a character", "signed char U = -129;", "signed char U = -128;", "overflow in converting constant expression from `int' to `signed char'")
top("constant does not fit a short", "short U = 32768;", "short U = 32767;", "overflow in converting constant expression from `int' to `short'")
top("constant does not fit an unsigned short", "unsigned short U = 65536;", "unsigned short U = 65535;", "overflow in converting constant expression from `unsigned int' to `unsigned short'")
top("constant does not fit an unsigned character", "unsigned char U = 256;", "unsigned char U = 255;", "overflow in converting constant expression from `unsigned int' to `unsigned char'")
top("explicit conversion of a constant", "char U = 300;", "char U = (char)300;", "overflow in converting constant expression from `int' to `char'")
top("floating constant does not fit an integer", "int U = 3e9f;", "int U = 2e9f;", "overflow in converting constant expression from `float' to `int'")
top("escape sequence too large", "char U[] = \"a\\777b\";", "char U[] = \"a\\377b\";", "overflow in escape sequence")
top("hexadecimal escape sequence too large", "char U[] = \"a\\x1ff\";", "char U[] = \"a\\xff\";", "overflow in (hexadecimal )?escape sequence")
top("unknown escape sequence", "char U[] = \"a\\qb\";", "char U[] = \"a\\nb\";", "unrecognized character escape sequence `.q'")
top("bit-field initializer too wide", "struct { int a : 3; } U = { 4 };", "struct { int a : 3; } U = { 3 };", "initializer exceeds bit-field width")
top("negative bit-field initializer too wide", "struct { int a : 3; } U = { -5 };", "struct { int a : 3; } U = { -4 };", "initializer exceeds bit-field width")
stmt("unsigned number below zero", "{ unsigned U = 3; if (U < 0) U = 4; }", "{ unsigned U = 3; if (U < 1) U = 4; }", "result of unsigned comparison is constant")
stmt("unsigned number not below zero", "{ unsigned U = 3; if (U >= 0) U = 4; }", "{ unsigned U = 3; if (U > 0) U = 4; }", "result of unsigned comparison is constant")
stmt("zero above an unsigned number", "{ unsigned U = 3; if (0 > U) U = 4; }", "{ unsigned U = 3; if (0 < U) U = 4; }", "result of unsigned comparison is constant")
stmt("zero not above an unsigned number", "{ unsigned U = 3; if (0 <= U) U = 4; }", "{ int U = 3; if (0 <= U) U = 4; }", "result of unsigned comparison is constant")
stmt("minus of an unsigned number", "{ unsigned U = 3; U = -U; }", "{ unsigned U = 3; U = ~U; }", "unsigned operand of unary -")
top("unsigned bit-field initializer too wide", "struct { unsigned a : 3; } U = { 8 };", "struct { unsigned a : 3; } U = { 7 };", "initializer exceeds bit-field width")
top("unsigned constant does not fit an integer", "int U = 2147483648u;", "int U = 2147483647u;", "overflow in converting constant expression from `unsigned int' to `int'")
stmt("negation without effect", "{ int U = 3; !U; }", "{ int U = 3; U = !U; }", "elided")
stmt("member without effect", "{ struct { int a : 3; } U; U.a = 1; U.a; }", "{ struct { int a : 3; } U; U.a = 1; U.a++; }", "elided")
stmt("shift without effect", "{ int U = 3; U << 2; }", "{ int U = 3; U <<= 2; }", "elided")
stmt("complement without effect", "{ int U = 3; ~U; }", "{ int U = 3; U = ~U; }", "elided")
stmt("step of a loop without effect", "{ int U = 3; for (; U < 5; U + 1) U++; }", "{ int U = 3; for (; U < 5; U += 1) U++; }", "elided")
# statements
NR = "missing return value"
top("end of a function without return", "int U(int a) { if (a) return 3; }", "int U(int a) { if (a) return 3; else return 2; }", NR)
top("end of a function behind a loop", "int U(int a) { while (a) a--; }", "int U(int a) { while (a) a--; return a; }", NR)
top("return without a value", "int U(int a) { if (a) return; return 2; }", "int U(int a) { if (a) return 1; return 2; }", NR)
top("end of a function behind break", "int U(int a) { for (;;) { if (a) break; } }", "int U(int a) { for (;;) { if (a) return 3; } }", NR)
top("end of a function behind switch", "int U(int a) { switch (a) { case 1: return 1; } }", "int U(int a) { switch (a) { case 1: return 1; default: return 2; } }", NR)
stmt("code behind goto", "{ int U = 3; goto U2; U++; U2: U--; }", "{ int U = 3; if (U) goto U2; U++; U2: U--; }", "unreachable code")
stmt("code behind break", "{ int U = 3; while (U) { break; U--; } }", "{ int U = 3; while (U) { if (U == 2) break; U--; } }", "unreachable code")
stmt("code behind continue", "{ int U = 3; while (U--) { continue; U--; } }", "{ int U = 3; while (U--) { if (U) continue; U--; } }", "unreachable code")
top("code behind return", "void U(int a) { return; a++; }", "void U(int a) { if (a) return; a++; }", "unreachable code")
top("code behind a loop without end", "int U(int a) { for (;;) a++; return a; }", "int U(int a) { for (;a;) a++; return a; }", "unreachable code")
stmt("switch without cases", "{ int U = 3; switch (U) { } }", "{ int U = 3; switch (U) { case 3: U++; } }", "switch statement with no cases")
stmt("expression without effect", "{ int U = 3; U + 1; }", "{ int U = 3; U += 1; }", "elided")
stmt("comparison for assignment", "{ int U = 3; U == 1; }", "{ int U = 3; U = 1; }", "elided")
stmt("name for a statement", "{ int U = 3; U; }", "{ int U = 3; U++; }", "elided")
stmt("dereference for a statement", "{ int U = 3, *U2 = &U; *U2; }", "{ int U = 3, *U2 = &U; *U2 = 4; }", "elided")
stmt("volatile object for a statement", "{ volatile int U = 3; U; }", "{ volatile int U = 3; U = 1; }", "reference to `volatile int' elided")
stmt("left operand without effect", "{ int U = 3, U2; U2 = (U + 1, U); U2++; }", "{ int U = 3, U2; U2 = (U++, U); U2++; }", "elided")
top("address of a parameter returned", "int *U(int a) { return &a; }", "int *U(int *a) { return a; }", "pointer to a parameter is an illegal return value|pointer to parameter `\\S+' is an illegal return value")
top("address of a local object returned", "int *U(void) { int a; a = 3; return &a; }", "int *U(void) { static int a; a = 3; return &a; }", "pointer to a? ?local `?\\S* ?is an illegal return value")
top("local array returned", "int *U(void) { int a[3]; a[0] = 3; return a; }", "int *U(void) { static int a[3]; a[0] = 3; return a; }", "pointer to a? ?local `?\\S* ?is an illegal return value")
# declarations
top("register array", "int U(void) { register int a[3]; a[0] = 1; return a[0]; }", "int U(void) { int a[3]; a[0] = 1; return a[0]; }", "register declaration ignored for")
top("declaration does not match the one of a block", "int U2(void) { extern int U; return U; } extern float U;", "int U2(void) { extern int U; return U; } extern int U;", "declaration of `\\S+' does not match previous declaration")
top("static behind extern", "extern int U(void); static int U(void) { return 1; } int U2(void) { return U(); }", "static int U(void); static int U(void) { return 1; } int U2(void) { return U(); }", "inconsistent linkage for")
stmt("function not declared", "{ int U = U2(3); U++; }", "{ extern int U2(int); int U = U2(3); U++; }", "missing prototype", 1)
top("function declared without parameters", "int U();", "int U(void);", "missing prototype", 1)
top("pointer to a function without parameters", "int (*U)();", "int (*U)(void);", "missing prototype", 1)
top("member without parameters", "struct U { int (*a)(); };", "struct U { int (*a)(void); };", "missing prototype", 1)
top("old-style definition", "int U(a) int a; { return a; }", "int U(int a) { return a; }", "old-style function definition for", 1)
stmt("assignment of different pointers to enumeration", "{ enum U { U2 } *U3 = 0; int *U4 = 0; U4 = U3; U4++; }", "{ int *U3 = 0; int *U4 = 0; U4 = U3; U4++; }", "compiler[- ]dependent", 1)
stmt("local object not used", "{ int U; }", "{ int U; U = 1; }", "local `int \\S+' is not referenced", 2)
top("parameter not used", "int U(int a) { return 3; }", "int U(int a) { return a; }", "parameter `int a' is not referenced", 2)
top("static object not used", "static int U = 3;", "static int U = 3; int U2(void) { return U; }", "static `int \\S+' is not referenced", 2)
top("trailing comma of an enumeration", "enum U { U2, };", "enum U { U2 };", "non-ANSI trailing comma", 2)
top("function as a condition", "int U(void); int U2(void) { if (U) return 1; return 2; }", "int U(void); int U2(void) { if (U()) return 1; return 2; }", "used in a conditional expression", 2)
top("long string", 'char U[] = "%s";' % ("x" * 510), 'char U[] = "%s";' % ("x" * 509), "more than 509 characters in a string literal", 2)
top("many parameters", "int U(%s);" % ", ".join("int a%d" % i for i in range(32)) + " " + "int U2(%s) { return 0; }" % ", ".join("int a%d" % i for i in range(32)), "int U2(%s) { return 0; }" % ", ".join("int a%d" % i for i in range(31)), "more than 31 parameters in function", 2)
top("many fields", "struct U { int %s; };" % ", ".join("a%d" % i for i in range(128)), "struct U { int %s; };" % ", ".join("a%d" % i for i in range(127)), "more than 127 fields in", 2)
top("many enumeration constants", "enum U { %s };" % ", ".join("U%d" % (i + 2) for i in range(128)), "enum U { %s };" % ", ".join("U%d" % (i + 2) for i in range(127)), "more than 127 enumeration constants in", 2)
top("large object", "char U[32768];", "char U[32767];", "more than 32767 bytes in", 2)
