"""Violations of C90 constraints and syntax (C32).  Every entry is
(name, where, wrong text, right text).  where: 'top' file scope, 'stmt' inside
of a function, 'cpp' for the preprocessor (a line of its own at file scope).
U stands for a unique identifier.  Both texts are one line."""

T = []


def top(name, bad, good=None):
    T.append((name, "top", bad, good))


def stmt(name, bad, good=None):
    T.append((name, "stmt", bad, good))


def cpp(name, bad, good=None):
    T.append((name, "cpp", bad, good))


# ---- syntax
top("missing semicolon", "int U int U2;", "int U; int U2;")
top("missing identifier", "int ;int = 4;", "int U = 4;")
top("unbalanced brace", "int U(void) { return 1; } }", "int U(void) { return 1; }")
top("missing parenthesis", "int U(void { return 1; }", "int U(void) { return 1; }")
top("missing bracket", "int U[3;", "int U[3];")
top("missing initializer", "int U = ;", "int U = 1;")
top("illegal character", "int U = 3 @ 4;", "int U = 3 + 4;")
top("illegal character $", "int U = 3 ` 4;", "int U = 3 ^ 4;")
top("stray token", "int U; )", "int U; ")
top("two types", "int float U;", "unsigned int U;")
top("signed and unsigned", "signed unsigned U;", "signed U;")
top("short long", "short long U;", "short int U;")
top("unsigned float", "unsigned float U;", "unsigned long U;")
top("two storage classes", "static extern int U;", "static int U;")
top("auto at file scope", "auto int U;", "extern int U;")
top("register at file scope", "register int U;", "static int U;")
top("repeated qualifier", "const const int U;", "const volatile int U;")
top("empty enum", "enum U { };", "enum U { U2 };")
top("empty struct", "struct U { } U2;", "struct U { int a; } U2;")
stmt("missing semicolon", "{ int U; U = 1 U = 2; }", "{ int U; U = 1; U = 2; }")
stmt("missing operand", "{ int U; U = 3 * ; }", "{ int U; U = 3 * 2; }")
stmt("missing operator", "{ int U = 1; U = U U; }", "{ int U = 1; U = U + U; }")
stmt("missing )", "{ int U = 1; U = (U + 2; }", "{ int U = 1; U = (U + 2); }")
stmt("extra )", "{ int U = 1; U = U + 2); }", "{ int U = 1; U = (U) + 2; }")
stmt("missing ]", "{ int U[2]; U[0 = 1; }", "{ int U[2]; U[0] = 1; }")
stmt("if without (", "{ int U = 1; if U) U = 2; }", "{ int U = 1; if (U) U = 2; }")
stmt("else without if", "{ int U = 1; else U = 2; }", "{ int U = 1; if (U) ; else U = 2; }")
stmt("two else", "{ int U = 1; if (U) ; else U = 2; else U = 3; }", "{ int U = 1; if (U) ; else U = 2; }")
stmt("do without while", "{ int U = 1; do U--; U = 2; }", "{ int U = 1; do U--; while (U); }")
stmt("for with two parts", "{ int U; for (U = 0; U < 2) U++; }", "{ int U; for (U = 0; U < 2;) U++; }")
stmt("while without condition", "{ int U = 1; while () U--; }", "{ int U = 1; while (U) U--; }")
stmt("declaration after statement", "{ int U; U = 1; int U2; U2 = U; }", "{ int U; int U2; U = 1; U2 = U; }")
stmt("case without colon", "{ switch (1) { case 1 break; } }", "{ switch (1) { case 1: break; } }")
stmt("label without statement", "{ goto U; U: }", "{ goto U; U: ; }")
stmt("conditional without colon", "{ int U = 1; U = U ? 2; }", "{ int U = 1; U = U ? 2 : 3; }")
stmt("keyword as identifier", "{ int while; }", "{ int U; }")
stmt("empty subscript", "{ int U[2]; U[] = 1; }", "{ int U[2]; U[1] = 1; }")
stmt("empty argument", "{ extern int U(int, int); U(1, , 2); }", "{ extern int U(int, int); U(1, 2); }")
# ---- tokens
top("unterminated string", 'char *U = "abc;', 'char *U = "abc";')
top("unterminated character", "int U = 'a;", "int U = 'a';")
top("empty character", "int U = '';", "int U = ' ';")
top("octal with 9", "int U = 089;", "int U = 0117;")
top("hexadecimal without digits", "int U = 0x;", "int U = 0xa;")
top("number with letters", "int U = 12ab;", "int U = 12l;")
top("exponent without digits", "float U = 1e;", "float U = 1e1;")
top("invalid suffix", "float U = 1.5u;", "float U = 1.5f;")
# ---- names
top("undeclared initializer", "int U = U2;", "int U2, *U = &U2;")
stmt("undeclared", "{ U = 1; }", "{ int U; U = 1; }")
stmt("undeclared operand", "{ int U = 1; U = U + U2; }", "{ int U = 1, U2 = 1; U = U + U2; }")
stmt("out of scope", "{ { int U = 1; U++; } U++; }", "{ { int U = 1; U++; } { int U = 2; U++; } }")
top("redeclared", "int U; float U;", "int U; int U;")
top("redeclared function", "int U(int); int U(float);", "int U(int); int U(int);")
top("redeclared as function", "int U; int U(void);", "int U; int U2(void);")
top("redefined", "int U = 1; int U = 2;", "int U = 1; int U;")
top("redefined function", "int U(void) { return 1; } int U(void) { return 2; }", "int U(void); int U(void) { return 1; }")
stmt("redeclared local", "{ int U; int U; U = 0; }", "{ int U; { int U; U = 0; } U = 0; }")
top("redeclared parameter", "int U(int a, int a) { return a; }", "int U(int a, int b) { return a; }")
top("parameter redeclared in body", "int U(int a) { int a; a = 1; return a; }", "int U(int a) { { int a; a = 1; } return a; }")
top("typedef redeclared", "typedef int U; int U;", "typedef int U; U U2;")
top("enum constant redeclared", "enum { U }; int U;", "enum { U }; int U2;")
top("enum constant twice", "enum { U, U2, U };", "enum { U, U2, U3 };")
top("struct redefined", "struct U { int a; }; struct U { int b; };", "struct U { int a; }; struct U2 { int b; };")
top("tag of another kind", "struct U { int a; }; union U U2;", "struct U { int a; }; struct U U2;")
top("member twice", "struct U { int a; char a; };", "struct U { int a; char b; };")
stmt("undefined label", "{ goto U; }", "{ goto U; U: ; }")
stmt("label twice", "{ U: ; goto U2; U: ; U2: ; goto U2; }", "{ U: ; goto U2; U3: ; U2: ; }")
stmt("undefined type", "{ U x; x = 1; }", "{ typedef int U; U x; x = 1; }")
# ---- types of objects
top("array of void", "void U[3];", "void *U[3];")
top("array of functions", "int U[3](void);", "int (*U[3])(void);")
top("function returning array", "int U(void)[3];", "int (*U(void))[3];")
top("function returning function", "int U(void)(void);", "int (*U(void))(void);")
top("incomplete struct", "struct U3 U = { 1 };", "struct U3 { int a; } U = { 1 };")
stmt("incomplete local", "{ struct U3 U; }", "{ struct U3 *U; U = 0; }")
top("member of incomplete type", "struct U { struct U2 a; };", "struct U { struct U2 *a; };")
top("member contains itself", "struct U { int b; struct U a; };", "struct U { int b; struct U *a; };")
top("function member", "struct U { int a(void); };", "struct U { int (*a)(void); };")
top("void parameter", "int U(void, int);", "int U(void);")
top("void named parameter", "int U(int a, void b) { return a; }", "int U(int a, void *b) { return a; }")
top("negative array", "int U[-1];", "int U[1];")
top("empty array dimension", "int U[2][] = { 1, 2 };", "int U[][2] = { 1, 2 };")
top("non-constant array", "int U2; int U[U2];", "enum { U2 = 3 }; int U[U2];")
top("float array size", "int U[2.5];", "int U[(int)2.5];")
top("non-constant initializer", "int U2; int U = U2;", "int U2; int *U = &U2;")
top("call in initializer", "int U2(void); int U = U2();", "int U2(void); int (*U)(void) = U2;")
top("non-constant enum", "int U2; enum { U = U2 };", "enum { U = 3 };")
top("bit-field too wide", "struct U { int a : 33; };", "struct U { int a : 32; };")
top("negative bit-field", "struct U { int a : -1; };", "struct U { int a : 1; };")
top("float bit-field", "struct U { float a : 3; };", "struct U { int a : 3; };")
top("char pointer bit-field", "struct U { char *a : 3; };", "struct U { unsigned a : 3; };")
top("bit-field width not constant", "int U2; struct U { int a : U2; };", "struct U { int a : 1 + 1; };")
stmt("sizeof void", "{ int U; U = sizeof(void); }", "{ int U; U = sizeof(void *); }")
stmt("sizeof function", "{ extern int U2(void); int U; U = sizeof U2; }", "{ extern int U2(void); int U; U = sizeof U2(); }")
stmt("sizeof incomplete", "{ int U; U = sizeof(struct U2); }", "{ int U; U = sizeof(struct U2 *); }")
stmt("sizeof bit-field", "{ struct { int a : 3; } U; int x; x = sizeof U.a; }", "{ struct { int a : 3; } U; int x; x = sizeof U; }")
# ---- initializers
top("too many initializers", "int U[2] = { 1, 2, 3 };", "int U[2] = { 1, 2 };")
top("too many for struct", "struct { int a, b; } U = { 1, 2, 3 };", "struct { int a, b; } U = { 1, 2 };")
top("too many for scalar", "int U = { 1, 2 };", "int U = { 1 };")
top("string too long", 'char U[2] = "abcd";', 'char U[4] = "abcd";')
top("array without braces", "int U[2] = 1;", "int U[2] = { 1 };")
top("pointer from string to int", 'int *U = 1.5;', 'char *U = "a";')
top("struct from int", "struct { int a; } U = 1;", "struct { int a; } U = { 1 };")
top("initialized extern function", "int U(void) = 3;", "int U(void);")
top("initialized typedef", "typedef int U = 3;", "typedef int U;")
top("initialized parameter", "int U(int a = 3) { return a; }", "int U(int a) { return a; }")
stmt("incompatible initializer", "{ int U; float *U2 = &U; }", "{ int U; int *U2 = &U; U2 = 0; }")
stmt("initialized extern", "{ extern int U = 3; }", "{ static int U = 3; U++; }")
# ---- expressions
stmt("assignment to value", "{ int U = 1; U + 1 = 2; }", "{ int U = 1; U = U + 2; }")
stmt("assignment to constant", "{ 3 = 4; }", "{ int U; U = 4; }")
stmt("assignment to array", "{ int U[2], U2[2]; U = U2; }", "{ int U[2], U2[2]; U2[0] = 0; U[0] = U2[0]; }")
stmt("assignment to function", "{ extern int U(void); U = 0; }", "{ int (*U)(void); U = 0; }")
stmt("assignment to const", "{ const int U = 1; U = 2; }", "{ int U = 1; U = 2; }")
stmt("assignment through const", "{ const int *U = 0; *U = 2; }", "{ int x, *U = &x; *U = 2; }")
stmt("assignment to const member", "{ struct { const int a; int b; } U; U.a = 2; }", "{ struct { const int a; int b; } U; U.b = 2; }")
stmt("assignment to nested const member", "{ struct { struct { const int a; } b; int c; } U, U2; U = U2; }", "{ struct { struct { int a; } b; int c; } U, U2; U2.c = 1; U = U2; }")
stmt("assignment to const array member", "{ struct { const int a[2]; int c; } U, U2; U = U2; }", "{ struct { const int *a[2]; int c; } U, U2; U2.c = 1; U = U2; }")
stmt("const to void pointer", "{ const int *U = 0; void *U2; U2 = U; }", "{ const int *U = 0; const void *U2; U2 = U; }")
stmt("volatile to void pointer", "{ volatile int *U = 0; void *U2; U2 = U; }", "{ volatile int *U = 0; volatile void *U2; U2 = U; }")
stmt("more parameters in prototype", "{ extern int U(int, int); extern int U(int); }", "{ extern int U(int); extern int U(int); }")
stmt("fewer parameters in prototype", "{ extern int U(int); extern int U(int, int); }", "{ extern int U(int); extern int U(int x); }")
stmt("continue in switch in if", "if (1) switch (3) { case 1: { continue; } }", "for (;;) { if (1) switch (3) { case 1: continue; } break; }")
stmt("increment of const", "{ const int U = 1; U++; }", "{ int U = 1; U++; }")
stmt("increment of value", "{ int U = 1; (U + 1)++; }", "{ int U = 1; (U)++; }")
stmt("increment of struct", "{ struct { int a; } U; U++; }", "{ struct { int a; } U; U.a = 1; U.a++; }")
stmt("cast as lvalue", "{ int U = 1; (char)U = 2; }", "{ int U = 1; *(char *)&U = 2; }")
stmt("conditional as lvalue", "{ int U = 1, U2 = 2; (U ? U : U2) = 2; }", "{ int U = 1, U2 = 2; *(U ? &U : &U2) = 2; }")
stmt("address of value", "{ int U = 1, *U2; U2 = &(U + 1); }", "{ int U = 1, *U2; U2 = &(U) + 1; }")
stmt("address of constant", "{ int *U; U = &5; }", "{ int *U; U = 0; }")
stmt("address of register", "{ register int U = 1; int *U2; U2 = &U; }", "{ auto int U = 1; int *U2; U2 = &U; }")
stmt("address of bit-field", "{ struct { int a : 3; } U; int *U2; U2 = &U.a; }", "{ struct { int a; } U; int *U2; U2 = &U.a; }")
stmt("dereferenced int", "{ int U = 1; *U = 2; }", "{ int x, *U = &x; *U = 2; }")
stmt("dereferenced void", "{ void *U = 0; int x; x = *U; }", "{ void *U = 0; int x; x = U != 0; }")
stmt("dereferenced struct", "{ struct { int a; } U; *U; }", "{ struct { int a; } U; (&U)->a = 1; }")
stmt("subscript of int", "{ int U = 1; U[0] = 2; }", "{ int U[1]; U[0] = 2; }")
stmt("float subscript", "{ int U[3]; U[1.0] = 2; }", "{ int U[3]; U[1] = 2; }")
stmt("pointer subscript", "{ int U[3]; U[U] = 2; }", "{ int U[3]; 1[U] = 2; }")
stmt("member of int", "{ int U = 1; U.a = 2; }", "{ struct { int a; } U; U.a = 2; }")
stmt("unknown member", "{ struct { int a; } U; U.b = 2; }", "{ struct { int a; } U; U.a = 2; }")
stmt(". of a pointer", "{ struct { int a; } U, *U2 = &U; U2.a = 2; }", "{ struct { int a; } U, *U2 = &U; U2->a = 2; }")
stmt("-> of a struct", "{ struct { int a; } U; U->a = 2; }", "{ struct { int a; } U; U.a = 2; }")
stmt("member of incomplete", "{ struct U3 *U = 0; U->a = 2; }", "{ struct U3 { int a; } x, *U = &x; U->a = 2; }")
stmt("call of int", "{ int U = 1; U(2); }", "{ extern int U(int); U(2); }")
stmt("too few arguments", "{ extern int U(int, int); U(1); }", "{ extern int U(int, int); U(1, 2); }")
stmt("too many arguments", "{ extern int U(int, int); U(1, 2, 3); }", "{ extern int U(int, int, ...); U(1, 2, 3); }")
stmt("arguments for void", "{ extern int U(void); U(1); }", "{ extern int U(); U(1); }")
stmt("struct for int", "{ extern int U(int); struct { int a; } x; U(x); }", "{ extern int U(int); struct { int a; } x; x.a = 1; U(x.a); }")
stmt("int for pointer", "{ extern int U(int *); U(5); }", "{ extern int U(int *); U(0); }")
stmt("pointer for int", "{ extern int U(int); int x; U(&x); }", "{ extern int U(int); int x; U((int)&x); }")
stmt("wrong pointer", "{ extern int U(int *); float x; U(&x); }", "{ extern int U(int *); int x; U(&x); }")
stmt("const pointer for pointer", "{ extern int U(int *); const int x = 1; U(&x); }", "{ extern int U(const int *); int x; U(&x); }")
stmt("wrong struct", "{ struct U3 { int a; } x; struct U4 { int a; } y; x = y; }", "{ struct U3 { int a; } x, y; y.a = 1; x = y; }")
stmt("struct to int", "{ struct { int a; } U; int x; x = U; }", "{ struct { int a; } U; int x; U.a = 1; x = U.a; }")
stmt("cast of struct", "{ struct { int a; } U; int x; x = (int)U; }", "{ struct { int a; } U; int x; U.a = 1; x = (int)U.a; }")
stmt("cast to struct", "{ struct U3 { int a; } U; U = (struct U3)5; }", "{ struct U3 { int a; } U; U.a = (int)5; }")
stmt("cast to array", "{ int U; U = ((int [2])U)[0]; }", "{ int U; U = ((int *)&U)[0]; }")
stmt("cast of float to pointer", "{ float U = 1; int *x; x = (int *)U; }", "{ float U = 1; int *x; x = (int *)(int)U; }")
stmt("cast of pointer to float", "{ float U; int *x = 0; U = (float)x; }", "{ float U; int *x = 0; U = (float)(int)x; }")
stmt("pointer from int", "{ int *U; U = 5; }", "{ int *U; U = (int *)5; }")
stmt("int from pointer", "{ int *U = 0; int x; x = U; }", "{ int *U = 0; int x; x = (int)U; }")
stmt("pointers of other types", "{ int *U; float *x = 0; U = x; }", "{ int *U; float *x = 0; U = (int *)x; }")
stmt("function pointers of other types", "{ extern int U2(int); int (*U)(float); U = U2; }", "{ extern int U2(int); int (*U)(int); U = U2; }")
stmt("discarded const", "{ const char *U = 0; char *x; x = U; }", "{ const char *U; char *x = 0; U = x; }")
stmt("void value", "{ extern void U(void); int x; x = U(); }", "{ extern int U(void); int x; x = U(); }")
stmt("void operand", "{ extern void U(void); int x; x = 1 + U(); }", "{ extern void U(void); U(), 1; }")
stmt("void condition", "{ extern void U(void); if (U()) ; }", "{ extern int U(void); if (U()) ; }")
stmt("struct condition", "{ struct { int a; } U; if (U) ; }", "{ struct { int a; } U; U.a = 1; if (U.a) ; }")
stmt("struct in while", "{ struct { int a; } U; while (U) ; }", "{ struct { int a; } U; U.a = 0; while (U.a) ; }")
stmt("struct in &&", "{ struct { int a; } U; int x; x = U && 1; }", "{ struct { int a; } U; int x; U.a = 0; x = U.a && 1; }")
stmt("struct in !", "{ struct { int a; } U; int x; x = !U; }", "{ struct { int a; } U; int x; U.a = 0; x = !U.a; }")
stmt("struct in ?:", "{ struct { int a; } U; int x; x = U ? 1 : 2; }", "{ struct { int a; } U; int x; U.a = 0; x = U.a ? 1 : 2; }")
stmt("struct ==", "{ struct { int a; } U, x; int y; y = U == x; }", "{ struct { int a; } U, x; int y; y = &U == &x; }")
stmt("struct +", "{ struct { int a; } U; int y; y = U + 1; }", "{ struct { int a; } U; int y; U.a = 1; y = U.a + 1; }")
stmt("float %", "{ float U = 1; U = U % 2; }", "{ float U = 1; U = U / 2; }")
stmt("float &", "{ float U = 1; int x; x = U & 2; }", "{ float U = 1; int x; x = (int)U & 2; }")
stmt("float |=", "{ float U = 1; U |= 2; }", "{ float U = 1; U *= 2; }")
stmt("float <<", "{ float U = 1; int x; x = 1 << U; }", "{ float U = 1; int x; x = 1 << (int)U; }")
stmt("float >>=", "{ float U = 1; U >>= 2; }", "{ float U = 1; U /= 2; }")
stmt("~ of float", "{ float U = 1; int x; x = ~U; }", "{ float U = 1; int x; x = ~(int)U; }")
stmt("~ of pointer", "{ int *U = 0; int x; x = ~U; }", "{ int *U = 0; int x; x = !U; }")
stmt("- of pointer", "{ int *U = 0; int x; x = -U; }", "{ int *U = 0; int x; x = -(int)U; }")
stmt("+ of pointer", "{ int *U = 0; int *x; x = +U; }", "{ int *U = 0; int *x; x = U; }")
stmt("pointer + pointer", "{ int *U = 0, *x = 0; U = U + x; }", "{ int *U = 0, *x = 0; U = U + (x - U); }")
stmt("pointer * int", "{ int *U = 0; U = U * 2; }", "{ int *U = 0; U = U + 2; }")
stmt("pointer - float", "{ int *U = 0; U = U - 1.5; }", "{ int *U = 0; U = U - 1; }")
stmt("int - pointer", "{ int *U = 0; int x; x = 5 - U; }", "{ int *U = 0; int *x; x = U - 5; }")
stmt("pointer & int", "{ int *U = 0; int x; x = U & 3; }", "{ int *U = 0; int x; x = (int)U & 3; }")
stmt("pointer - other pointer", "{ int *U = 0; char *x = 0; int y; y = U - x; }", "{ int *U = 0; char *x = 0; int y; y = (char *)U - x; }")
stmt("pointer == int", "{ int *U = 0; int x; x = U == 5; }", "{ int *U = 0; int x; x = U == 0; }")
stmt("pointer < other pointer", "{ int *U = 0; float *x = 0; int y; y = U < x; }", "{ int *U = 0; int *x = 0; int y; y = U < x; }")
stmt("pointer < int", "{ int *U = 0; int y; y = U < 7; }", "{ int *U = 0; int y; y = (int)U < 7; }")
stmt("?: of other types", "{ int *U = 0; float *x = 0; void *y; y = 1 > U ? U : x; }", "{ int *U = 0; void *x = 0; void *y; y = U ? U : x; }")
stmt("?: of struct and int", "{ struct { int a; } U; int x = 1; x = x ? U : 2; }", "{ struct { int a; } U; int x = 1; U.a = 1; x = x ? U.a : 2; }")
stmt("+= of pointer and pointer", "{ int *U = 0, *x = 0; U += x; }", "{ int *U = 0; U += 2; }")
stmt("*= of pointer", "{ int *U = 0; U *= 2; }", "{ int *U = 0; U -= 2; }")
stmt("arithmetic on void function", "{ extern void U(void); U() + 1; }", "{ extern int U(void); (void)(U() + 1); }")
# ---- statements
stmt("break outside", "break;", None)
stmt("continue outside", "continue;", None)
stmt("case outside", "case 4: ;", "switch (3) { case 4: ; }")
stmt("default outside", "default: ;", "switch (3) { default: ; }")
stmt("continue in switch", "switch (3) { case 1: continue; }", "for (;;) { switch (3) { case 1: continue; } break; }")
stmt("duplicate case", "switch (3) { case 1: ; case 2: ; case 1: ; }", "switch (3) { case 1: ; case 2: ; case 3: ; }")
stmt("duplicate case value", "switch (3) { case 'a': ; case 97: ; }", "switch (3) { case 'a': ; case 98: ; }")
stmt("duplicate default", "switch (3) { default: ; default: ; }", "switch (3) { default: ; }")
stmt("non-constant case", "{ int U = 1; switch (3) { case U: ; } }", "{ enum { U = 1 }; switch (3) { case U: ; } }")
stmt("float case", "switch (3) { case 1.5: ; }", "switch (3) { case (int)1.5: ; }")
stmt("float switch", "{ float U = 1; switch (U) { case 1: ; } }", "{ float U = 1; switch ((int)U) { case 1: ; } }")
stmt("pointer switch", "{ int *U = 0; switch (U) { case 0: ; } }", "{ int *U = 0; switch (U != 0) { case 0: ; } }")
stmt("string case", 'switch (3) { case "a": ; }', "switch (3) { case 'a': ; }")
top("value from void function", "void U(void) { return 1; }", "void U(void) { return; }")
top("wrong value returned", "int *U(void) { return 5; }", "int *U(void) { return 0; }")
top("struct returned as int", "struct U2 { int a; }; int U(struct U2 x) { return x; }", "struct U2 { int a; }; int U(struct U2 x) { return x.a; }")
top("other struct returned", "struct U2 { int a; }; struct U3 { int a; }; struct U2 U(struct U3 x) { return x; }", "struct U2 { int a; }; struct U2 U(struct U2 x) { return x; }")
top("returned incomplete", "struct U2 U(void) { }", "struct U2 { int a; } U(void) { struct U2 x; x.a = 1; return x; }")
top("parameter without name", "int U(int) { return 1; }", "int U(int a) { return 1; }")
top("parameter not in list", "int U(a) int b; { return 1; }", "int U(a) int a; { return 1; }")
top("old style parameter list without body", "int U(a, b);", "int U();")
top("storage class of parameter", "int U(static int a) { return a; }", "int U(register int a) { return a; }")
top("function without type of typedef", "typedef int U2(void); U2 U { return 1; }", "typedef int U2(void); U2 U;")
top("code at file scope", "U = 3; if (U) ;", "int U = 3;")
# ---- preprocessor
cpp("#error", "#error wrong", "#if 0\n#error wrong\n#endif")
cpp("missing include file", '#include "U_does_not_exist.h"', '#if 0\n#include "U_does_not_exist.h"\n#endif')
cpp("missing system include file", '#include <U_does_not_exist.h>')
cpp("include syntax", "#include U_x")
cpp("#else without #if", "#else", "#if 0\n#else\n#endif")
cpp("#elif without #if", "#elif 1", "#if 0\n#elif 1\n#endif")
cpp("#endif without #if", "#endif", "#if 1\n#endif")
cpp("#else twice", "#if 1\n#else\n#else\n#endif", "#if 1\n#else\n#endif")
cpp("#elif after #else", "#if 1\n#else\n#elif 1\n#endif", "#if 0\n#elif 1\n#else\n#endif")
cpp("#if without expression", "#if\n#endif", "#if 1\n#endif")
cpp("#if with bad expression", "#if 1 +\n#endif", "#if 1 + 1\n#endif")
cpp("#if with two expressions", "#if 1 2\n#endif", "#if 1 + 2\n#endif")
cpp("#if with division by zero", "#if 1 / 0\n#endif", "#if 1 / 1\n#endif")
cpp("#if with missing )", "#if (1\n#endif", "#if (1)\n#endif")
cpp("#if with string", '#if "a"\n#endif', "#if 'a'\n#endif")
cpp("#if with assignment", "#if U = 1\n#endif", "#if U == 1\n#endif")
cpp("#if with float", "#if 1.5\n#endif", "#if 1\n#endif")
cpp("#ifdef without name", "#ifdef\n#endif", "#ifdef U\n#endif")
cpp("#ifndef with number", "#ifndef 3\n#endif", "#ifndef U\n#endif")
cpp("#define without name", "#define", "#define U")
cpp("#define number", "#define 3 4", "#define U 4")
cpp("macro redefined", "#define U 1\n#define U 2", "#define U 1\n#define U 1")
cpp("macro parameters redefined", "#define U(a) a\n#define U(b) b", "#define U(a) a\n#define U(a) a")
cpp("parameter twice", "#define U(a, a) a", "#define U(a, b) a")
cpp("parameter list not closed", "#define U(a, b", "#define U(a, b) b")
cpp("parameter missing", "#define U(a, ) a", "#define U(a, b) a")
cpp("# without parameter", "#define U(a) #b\nchar *U2 = U(1);", "#define U(a) #a")
cpp("## at the beginning", "#define U(a) ## a\nint U2 = U(1);", "#define U(a) x ## a")
cpp("## at the end", "#define U(a) a ##\nint U2 = U(1);", "#define U(a) a ## x")
cpp("defined as macro", "#define defined 1", "#define U 1")
cpp("predefined macro redefined", "#define __LINE__ 4", "#define U __LINE__")
cpp("too many macro arguments", "#define U(a) a\nint U(1, 2);", "#define U(a) a\nint U(U2);")
cpp("too few macro arguments", "#define U(a, b) a b\nint U(U2);", "#define U(a, b) a b\nint U(U2, = 1);")
cpp("#undef without name", "#undef", "#undef U")
cpp("#line without number", "#line x", None)

# ---- every message of the compiler, one by one
top("typedef of a function body", "typedef int U(int a) { return a; }", "static int U(int a) { return a; }")
top("missing declarator", "int U, ;", "int U, U2;")
top("typedef twice", "typedef int U; typedef char U;", "typedef int U; typedef char U2;")
top("object and typedef", "int U; typedef char U;", "int U; typedef char U2;")
top("empty declaration", "int ;", "int U;")
top("empty declaration of a storage class", "static int;", "static int U;")
top("initialized function", "int U(void) = 0;", "int U(void);")
top("initialized function type", "typedef int U(int); U U2 = 0;", "typedef int U(int); U U2;")
top("static array of unknown size", "static int U[];", "static int U[] = { 1 };")
top("parameter of type void", "int U(int, void);", "int U(int, int);")
top("constant in a parameter list", "int U(int, 3);", "int U(int, int);")
top("constant in an identifier list", "int U(a, 3) int a; { return a; }", "int U(a, b) int a; { return a; }")
top("storage class of a parameter", "int U(static int a);", "int U(register int a);")
top("storage class of a defined parameter", "int U(extern int a) { return a; }", "int U(register int a) { return a; }")
top("storage class of an old-style parameter", "int U(a) static int a; { return a; }", "int U(a) register int a; { return a; }")
top("constant in a structure", "struct U { int a; 3; };", "struct U { int a; };")
top("missing tag", "struct *U;", "struct U2 *U;")
top("missing tag of a union", "union U { struct *a; };", "union U { struct U2 *a; };")
top("missing field name", "struct U { int a; int *; };", "struct U { int a; int *b; };")
top("old-style definition and prototype", "int U(int a, char *b); int U(a, b) int a; float *b; { return a + !b; }", "int U(int a, char *b); int U(a, b) int a; char *b; { return a + !b; }")
top("old-style definition with fewer parameters", "int U(int, int); int U(a) int a; { return a; }", "int U(int, int); int U(a, b) int a, b; { return a + b; }")
top("parameter of incomplete type", "struct U2; int U(struct U2 a) { return 0; }", "struct U2; int U(struct U2 *a) { return !a; }")
top("enumeration constant too large", "enum U { U2 = 2147483647, U3 };", "enum U { U2 = 2147483646, U3 };")
top("missing enumeration tag", "enum ;", "enum U { U2 };")
top("unknown enumeration", "enum U U2;", "enum U { U3 } U2;")
stmt("static array of unknown size", "{ static int U[]; }", "{ static int U[1]; U[0]++; }")
stmt("object of incomplete type", "{ struct U U2; }", "{ struct U { int a; } U2; U2.a = 1; }")
stmt("name in a type name", "{ int U = sizeof(int x); U++; }", "{ int U = sizeof(int); U++; }")
stmt("void argument", "{ extern int U(); U((void)0); }", "{ extern int U(); U(0); }")
stmt("address of a register", "{ register int U; int *U2 = &U; U2++; }", "{ int U; int *U2 = &U; U2++; }")
stmt("missing member name", "{ struct { int a; } U; U.(a) = 1; }", "{ struct { int a; } U; (U.a) = 1; }")
stmt("missing member name behind ->", "{ struct { int a; } U, *U2 = &U; U2->1 = 1; }", "{ struct { int a; } U, *U2 = &U; U2->a = 1; }")
stmt("typedef in a block twice", "{ typedef int U; typedef char U; }", "{ typedef int U; { typedef char U; U U2 = 0; U2++; } }")
stmt("call of a function that returns an incomplete type", "{ struct U *U2; struct U U3(void); U2 = 0; U3(); }", "{ struct U *U2; struct U U3(void); U2 = 0; U2 = 0; }")
stmt("type name in an expression", "{ typedef int U; int U2 = U + 1; U2++; }", "{ typedef int U; int U2 = (U)3 + 1; U2++; }")
stmt("type name as an operand", "{ typedef int U; int U2; U2 = 1 + U; }", "{ typedef int U; int U2; U2 = 1 + sizeof(U); }")
top("call in an initializer", "int U(void); int U2 = U();", "int U(void); int (*U2)(void) = U;")
top("object in an initializer", "int U; int U2 = U + 1;", "int U[2]; int *U2 = U + 1;")
top("address in a small object", "int U2; char U = (char)&U2;", "int U2; char *U = (char *)&U2;")
top("bit-field initialized with a pointer", "int U2; struct { int a : 3; } U = { &U2 };", "int U2; struct { int *a; } U = { &U2 };")
top("bit-field initialized with an object", "int U2; struct { int a : 3; } U = { U2 };", "int U2; struct { int a : 3; } U = { sizeof U2 };")
top("characters initialized with a pointer", "int U2; char U[2] = { &U2 };", "int U2; int *U[2] = { &U2 };")
top("characters initialized with an object", "char U2; char U[2] = { U2 };", "char U2; char U[2] = { sizeof U2 };")
top("undefined structure initialized", "struct U U2 = { 1 };", "struct U { int a; } U2 = { 1 };")
top("missing { of an array", "int U[] = 0;", "int U[] = { 0 };")
top("missing { of a character array", "char U[] = 0;", "char U[] = { 0 };")
top("empty character constant", "int U = '';", "int U = ' ';")
top("illegal character", "int U = 1 @ 2;", "int U = 1 + 2;")
top("illegal control character", "int U = 1 \x01 2;", None)
top("missing quote", "char *U = \"abc;", "char *U = \"abc\";")
stmt("empty character constant in a statement", "{ int U; U = ''; }", "{ int U; U = ' '; }")
top("hexadecimal escape without digits", 'char *U = "\\xg";', 'char *U = "\\xa";')
top("hexadecimal escape without digits at the end", 'char *U = "a\\x";', 'char *U = "a\\xb";')
top("character of a hexadecimal escape without digits", "int U = '\\xg';", "int U = '\\xf';")
