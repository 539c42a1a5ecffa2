from props_vm import prop as _prop
import props_vm
P = []


def prop(*a, **k):
    n = len(props_vm.P)
    _prop(*a, **k)
    P.append(props_vm.P.pop(n))


RCC = ["lcc/src/simp.c", "lcc/src/expr.c", "lcc/src/enode.c", "lcc/src/stmt.c", "lcc/src/decl.c", "lcc/src/init.c", "lcc/src/dag.c", "lcc/src/bytecode.c"]

prop("C30", "Compiled programs do in the VM what C defines",
     "Any valid C90 program without undefined behaviour (and without initialized objects of 16-bit type in static storage, which q3asm refuses), in any number of source files, that is compiled with lcc, assembled with q3asm and run in the interpreter produces exactly the results C defines for a 32-bit little-endian machine (char, short, int, long, float, pointers, structs, unions, bit-fields, arrays, enums; every operator and implicit conversion; evaluation of side effects; every statement; calls through prototypes, old-style definitions and function pointers; struct parameters and results; static, extern and nested scope objects; initializers of every shape). The compiler and the assembler accept it, with and without debugging information.",
     ["programs"], "all valid programs without undefined or implementation-dependent behaviour",
     "The test suite compiles two small programs.",
     RCC + ["q3asm/q3asm.c", "src/vm/vm.c"],
     [("tree simplification and conversions", "lcc/src/simp.c, lcc/src/enode.c, lcc/src/tree.c"), ("common subexpressions and listing", "lcc/src/dag.c"), ("switch code", "lcc/src/stmt.c: swgen, swcode"), ("initializers", "lcc/src/init.c"), ("bytecode back end", "lcc/src/bytecode.c: dumptree, defconst, defaddress, local, function")],
     [], ["output of the program in the VM", "exit status of lcc and q3asm"],
     "differential monitor: random C90 programs are run in the VM and, compiled by gcc -m32, natively; both output streams are compared event by event",
     note="The generator avoids undefined and implementation-dependent behaviour; a difference counts only if gcc -O0, gcc -O2 and clang agree. Also a written corpus (switches, floats, structs, pointers, K&R definitions).")

prop("C33", "What is compiled depends on nothing but the program",
     "The assembly code of a valid program is the same, byte for byte, whenever it is compiled: with options that only concern messages or the preprocessor's search, in another process environment, with uninitialized heap of other contents, by the compiler built with another C compiler, alone or with other files in one command, with the preprocessor run as a separate step. "
     "It does not change (except for debugging comments) when the program is spelled differently: comments, white space, line splices, trigraphs, joined lines, tokens that come out of macros, # and ## included. -g may add comments but leaves what the program does unchanged.",
     ["programs", "configurations"], "all valid programs, spellings and environments",
     "No test compiles the same program twice.",
     ["lcc/src/*.c", "lcc/cpp/*.c", "lcc/etc/lcc.c"],
     [("state between files", "lcc/etc/lcc.c: main, filename, compile"), ("translation phases", "lcc/cpp/cpplex.c: gettokens, trigraph, foldline"), ("macro expansion", "lcc/cpp/macro.c"), ("hash tables and arenas", "lcc/src/sym.c, lcc/src/alloc.c, lcc/src/string.c")],
     [], ["assembly files"],
     "metamorphic monitor: random programs are compiled in variants that must not matter and the assembly files are compared byte by byte (also a MemorySanitizer build and a clang build of the compiler)",
     note="Comments of -g are ignored; nothing else.")

prop("C34", "Constant expressions have one value, wherever they are evaluated",
     "A constant expression (int, unsigned, long, char and short types, float; arithmetic, shifts, comparisons, logical, conditional and comma-free expressions, casts, sizeof, enumeration constants) has the value C defines, whether it is folded in the compiler (static initializer, array size, bit-field width, enumeration constant, case label, operand in code) or computed at run time by the VM from variables with the same values, and in every mixture of constants and variables.",
     ["inputs", "programs"], "all constant expressions and all splits into constant and variable operands",
     "No test looks at a folded constant.",
     ["lcc/src/simp.c", "lcc/src/expr.c", "lcc/src/lex.c", "src/vm/vm.c"],
     [("folding", "lcc/src/simp.c: simplify, foldcnst, xfoldcnst, cvtcnst, addrtree"), ("constants", "lcc/src/lex.c: icon, fcon"), ("intexpr", "lcc/src/simp.c: intexpr, constexpr"), ("operators of the VM", "src/vm/vm.c: VM_CallInterpreted")],
     [], ["output of the program in the VM"],
     "reference monitor: an independent evaluator of typed C90 constant expressions; each expression is evaluated in five of fifteen contexts and compared",
     note="Only exact float values; division by zero, overflow and inexact conversions are not generated.")

CPP = ["lcc/cpp/cpp.c", "lcc/cpp/cpplex.c", "lcc/cpp/macro.c", "lcc/cpp/eval.c", "lcc/cpp/include.c", "lcc/cpp/nlist.c", "lcc/cpp/tokens.c", "lcc/cpp/hideset.c", "lcc/cpp/unix.c"]

prop("C31", "Preprocessing gives the tokens C90 prescribes, where they stand",
     "For every source file (with any headers, -I, -D and -U options) that is valid for the preprocessor, q3cpp succeeds and its output is exactly the sequence of tokens C90 defines: trigraphs, spliced lines, comments, macro definitions and redefinitions, expansion of object-like and function-like macros with nested and recursive uses over several lines, # and ##, #if expressions, skipped groups, #include in its three forms searched in the right order, #line, __LINE__, __FILE__. The #line marks in the output attribute each text line to the file and line where it stands.",
     ["programs", "inputs"], "all valid sources, headers and options (logical lines and calls below 12000 characters, made strings below 350)",
     "No test looks at the output of the preprocessor.",
     CPP,
     [("lexical analysis", "lcc/cpp/cpplex.c: fsm, gettokens, trigraph, foldline, nextdirective"), ("expansion", "lcc/cpp/macro.c: expandrow, gatherargs, substargs, doconcat, stringify; hideset.c"), ("conditions", "lcc/cpp/eval.c"), ("directives", "lcc/cpp/cpp.c: control; include.c"), ("white space and output", "lcc/cpp/tokens.c")],
     [], ["output of q3cpp", "exit status"],
     "differential monitor: token sequence, file and line of q3cpp's output for random macro programs and the repository's own sources are compared with gcc -E (a difference counts only if clang -E agrees with gcc); half of the runs use AddressSanitizer, UBSan or MemorySanitizer builds",
     note="White space in made strings is judged only for arguments without macros. Extensions of q3cpp (// comments) are compared with gnu90.")

prop("C35", "The compiler survives every input",
     "Whatever bytes the source file contains (mutations of valid programs, headers and macros, token soup, binary data, truncated files, files as small as nothing), under every option for messages and debugging, lcc and its parts end: with exit status 0 and an assembly file, or with a nonzero status, a message and no assembly file. No part reads or writes outside its memory, uses uninitialized memory, divides by zero, fails an assertion, is killed by a signal or runs without end. "
     "Valid programs that have a lot of one thing (nesting of blocks, parentheses, declarators, conditionals, structs, calls; numbers of members, parameters, cases, enumerators, macros, locals, globals, labels; lengths of identifiers, strings, lines, comments, constants, initializers, chains of operators) are accepted up to the minimum limits of C90 and compiled correctly; beyond a limit of the compiler there is a message.",
     ["inputs", "programs"], "all inputs (nesting of not more than 2000 levels)",
     "The test suite compiles two small valid programs.",
     ["lcc/src/*.c", "lcc/cpp/*.c", "lcc/etc/lcc.c"],
     [("buffers of the lexer", "lcc/src/input.c: fillbuf, nextline, resynch; lcc/src/lex.c: gettok, scon"), ("formatted strings", "lcc/src/output.c: stringf"), ("error recovery", "lcc/src/decl.c, lcc/src/expr.c, lcc/src/stmt.c, lcc/src/error.c"), ("token rows, hide sets, #if stacks, include table", "lcc/cpp/tokens.c, lcc/cpp/hideset.c, lcc/cpp/eval.c, lcc/cpp/include.c"), ("exit status and cleanup", "lcc/etc/lcc.c")],
     [], ["exit status", "messages", "output file"],
     "mutated, random and extreme inputs run on AddressSanitizer, UBSan and MemorySanitizer builds; a monitor of exit status, messages, output file and time; extreme valid programs are run in the VM and compared with native execution",
     note="Profiling (-b) and the back ends other than bytecode are not part of q3vm's use and not fuzzed.")

prop("C32", "What is wrong in a program is reported, where it is, and nothing else is",
     "If a source file breaks a syntax rule or constraint of C90 (in declarations, initializers, expressions, statements, tokens, preprocessor directives; in the file, in a header, behind #line, spliced lines or trigraphs, in any place of any program), lcc ends with a nonzero status, its first error message names the file and line of the mistake, there is no assembly file for that source file, and the other files of the command are compiled. "
     "Every operator, assignment, conversion, argument, return, initializer and declaration is accepted for exactly the operand types C90 allows. Nothing valid next to it is reported; the corrected program is accepted.",
     ["programs", "inputs"], "all constraint violations of the catalogue in all programs, all operators with all pairs of operand types",
     "No test compiles a wrong program.",
     ["lcc/src/*.c", "lcc/cpp/*.c", "lcc/etc/lcc.c"],
     [("constraints of expressions", "lcc/src/enode.c, lcc/src/expr.c: assign, asgntree, typeerror"), ("constraints of declarations", "lcc/src/decl.c, lcc/src/types.c, lcc/src/init.c"), ("statements", "lcc/src/stmt.c"), ("error positions", "lcc/src/error.c, lcc/src/input.c: resynch; lcc/cpp/cpp.c: error"), ("exit status", "lcc/etc/lcc.c: compile, callsys")],
     [], ["exit status", "messages", "assembly files"],
     "error injection: 230 kinds of mistakes (and their corrected forms) are put into random programs and a monitor checks status, place of the first message and output files; a matrix of 188000 constructs (operators x pairs of operand types) is compared line by line with gcc and clang where they agree",
     note="Not judged: conversions between void and function pointers and long long (extensions), unknown directives (a warning).")

prop("C37", "What is questionable is warned of, where it is, and warnings change nothing",
     "If a valid source file holds a construct whose behaviour C leaves undefined or which cannot be meant (a constant that overflows or does not fit, a shift by a negative number or the width, a comparison of an unsigned number that is always true or false, an expression without effect, code that cannot be reached, a function that ends without its return value, the address of a local object as return value, a switch without cases, a register array, linkage that changes), lcc warns of it with file and line, in any place of any program; "
     "with -A, and -A -A, also of missing prototypes, old-style definitions, objects that are not used and limits of C90 that are exceeded, and without these options not of them. The sound twin of a construct is not warned of, nor is anything else because of it. A warning changes neither the exit status nor the assembly file, and with -w there is none.",
     ["programs", "configurations"], "all constructs of the catalogue in all programs, with all of -A, -A -A, -w",
     "No test looks at a warning.",
     ["lcc/src/*.c", "lcc/etc/lcc.c"],
     [("constants and shifts", "lcc/src/simp.c: addi, muli, xcvtcnst, simplify; lcc/src/lex.c: icon, backslash"), ("statements", "lcc/src/stmt.c: definept, retcode, swstmt; lcc/src/tree.c: root1; lcc/src/decl.c: funcdefn"), ("declarations and references", "lcc/src/decl.c: dclglobal, dcllocal, checkref"), ("levels", "lcc/src/main.c: doopt; lcc/src/error.c: warning")],
     [], ["exit status", "messages", "assembly file"],
     "questionable constructs and their sound twins are put into random programs; a monitor of the messages compares with a catalogue (which, on which line, with which options) and with the messages of the program without them; the assembly file is compared with the one under other warning options",
     note="Warnings that only occur together with other errors, and those of q3cpp, are not in the catalogue.")

prop("C36", "The commands lcc and q3asm do what they are asked, or say that they did not",
     "For every command line, lcc compiles exactly the named files that can be compiled, with the macros (-D, -U, -Wp) and include directories (-I, in order) given, to the files that -o or the names of the sources say (with -E it writes the preprocessed sources in order and nothing else), and exits with 0 if everything succeeded, with another status and a message if one of the files is missing, cannot be read or is wrong. "
     "If a part fails (a tool is missing, fails, or is killed by a signal; the device or the quota is full; a file or directory cannot be made; the command is interrupted), lcc and q3asm report it by their exit status, and lcc leaves no incomplete assembly file. "
     "No command changes or removes any other file, writes to the standard output unasked, leaves temporary files, or disturbs another command that runs at the same time in the same directory.",
     ["inputs", "fault_sequences", "configurations"], "all command lines without -b, -B and output names that collide",
     "The test suite runs lcc on one file with one set of options.",
     ["lcc/etc/lcc.c", "lcc/etc/bytecodelcc.c", "lcc/cpp/unix.c", "lcc/cpp/include.c", "lcc/src/main.c", "lcc/src/output.c", "q3asm/cmdlib.c", "q3asm/q3asm.c"],
     [("options, files and exit status", "lcc/etc/lcc.c: main, opt, filename, compile, callsys"), ("cleanup", "lcc/etc/lcc.c: rm, interrupt, discard"), ("write errors", "lcc/src/output.c: outflush, lcc/cpp/tokens.c: flushout, q3asm/q3asm.c: WriteVmFile"), ("include directories", "lcc/cpp/include.c: appendDirToIncludeList")],
     [], ["exit status", "messages", "all files of a directory before and after"],
     "random command lines over random trees of files: a model of the command gives exit status, the files that must exist and the values of options seen in them, compared with snapshots of the directory; fault injection: tools replaced by ones that fail or are killed at chosen files, limits of file sizes, full devices, bad temporary directories, signals, twelve commands at once",
     note="Run as root: files without read permission are not tested.")

prop("C40", "The C library for programs does what C's functions of these names do",
     "bg_lib, compiled by lcc and run in the VM, gives for strings, memory blocks, sorting, number conversion and formatted output exactly what the C functions of the same names give: sorted permutations for every element size and order, copies with any overlap, every int read and written back, and vsprintf output for the supported conversions. "
     "Nothing is written behind the results.",
     ["inputs", "programs"], "all arguments within C's rules; supported conversions d i c s f % with -, 0, width and precision",
     "Tests print a few values that fit.",
     ["example/bg_lib.c", "example/bg_lib.h"], [("qsort", "example/bg_lib.c"), ("vsprintf, AddInt, AddFloat, AddString", "example/bg_lib.c"), ("atoi, atof", "example/bg_lib.c")], [], ["results printed by the program in the VM"],
     "generated calls in the VM compared with a model of the C library",
     note="%f is truncated and atof is exact to float precision; strings are padded on the right; sscanf's return value and characters above 127 are not judged.")
