from props_vm import prop as _prop
import props_vm
Q = "q3asm/q3asm.c"
P = []


def prop(*a, **k):
    n = len(props_vm.P)
    _prop(*a, **k)
    P.append(props_vm.P.pop(n))


prop("C20", "q3asm encodes every program exactly",
     "For every well-formed assembly program (any number of files) q3asm exits with 0 and writes an image whose header, code, data and lit sections are exactly what the language defines: each mnemonic's opcode with its operand in the right width and little-endian order, frame sizes of functions, argument slots, parameter and local offsets, rounded block copies, values of expressions with offsets, aligned and consecutive objects, padding and segment sizes. "
     "Options that only concern speed or output (-b, -v, -vq3, -m), white space, comments and a missing final newline do not change the image.",
     ["programs", "inputs"], "all well-formed assembly programs, operand values, expression forms, segment orders and file splits",
     "The build assembles two fixed programs, most mnemonics, operand values, alignments and segment interleavings never occur.",
     [Q, "q3asm/opstrings.h"],
     [("two passes over all lines", Q + ": Assemble, AssembleLine"), ("expressions", Q + ": ParseExpression"), ("frame layout", Q + ": TryAssemblePROC/ADDRF/ADDRL/ARG/RET"), ("segment choice for initialized data", Q + ": HackToSegment"), ("image", Q + ": WriteVmFile")],
     [("segment[]", "the section images", Q), ("instructionCount", "code label values", Q)], ["the .qvm file", "exit status"],
     "differential monitor: an independent assembler written from the language definition, compared byte by byte on generated programs (also under ASan/UBSan)",
     note="Random multi-file programs plus every mnemonic with every edge operand and long programs. Unlabelled data, non-ASCII names and images at the 4 MB limit are not judged.")

prop("C21", "q3asm resolves symbols exactly and reports every error",
     "A reference is bound to the one definition of that name, wherever it is (before, behind, in another file); names that start with $ belong to their file. List files (-f), output names and file order have their documented meaning. "
     "A duplicate or undefined symbol, an unknown mnemonic, an unsupported operand, frame, argument list, alignment or line length, a bad option or a missing file is reported with file and line, makes the exit status non-zero (for any number of errors) and leaves no image behind, not even one of an earlier run.",
     ["programs", "inputs", "configurations"], "all programs with and without errors, any number of errors, all option and list file spellings",
     "No test links an erroneous program or looks at q3asm's exit status.",
     [Q, "q3asm/cmdlib.c"],
     [("symbol table", Q + ": DefineSymbol, LookupSymbol, hashtable_*"), ("errors", Q + ": CodeError, main"), ("list files", Q + ": ParseOptionFile; q3asm/cmdlib.c: COM_Parse")],
     [("errorCount", "number of errors", Q)], ["exit status", "stderr", "existence of the .qvm file"],
     "error injection into generated programs with a monitor on exit status, messages and output files",
     note="20 kinds of errors at random places, list files in random spelling; images compared with the reference assembler.")

prop("C22", "q3asm survives every input",
     "For any bytes in assembly and list files and any option values q3asm terminates, without reading or writing outside of its buffers, using uninitialized memory or undefined arithmetic. "
     "Exit status 0 implies a complete, self-consistent image; a write error is never reported as success.",
     ["inputs", "crash_points"], "all input files, sizes and write failures",
     "Only output of lcc is ever assembled.",
     [Q, "q3asm/cmdlib.c"],
     [("line and token buffers", Q + ": ExtractLine, Parse"), ("bounded segments", Q + ": EmitByte, EmitInt, TryAssembleSKIP/ALIGN"), ("buffer sizes for names", Q + ": main, ParseOptionFile"), ("write errors", "q3asm/cmdlib.c: SafeWrite")],
     [], ["sanitizer reports", "exit status", "files"],
     "ASan/UBSan and MemorySanitizer builds under mutated programs and list files, with injected write errors (file size limits)",
     note="Accepted inputs whose meaning is defined are also compared with the reference assembler.")

prop("C23", "Image and map file describe the same program, and the interpreter runs it",
     "Every image q3asm writes loads in the interpreter. The map file lists each global symbol once, in the right segment, sorted, with the value that locates it there: code values are instruction numbers of exactly that function, data, lit and bss values plus the sizes of the segments before are VM addresses of exactly that object. "
     "At run time every object is aligned, contiguous, apart from all others and initialized as written; function pointers, jump tables and cross-file references lead where the source says; the entry point is the first function of the first file; the last 64 KB of bss are the program stack.",
     ["programs"], "all link sets of functions and objects in all segments",
     "No test reads a map file or checks more than the one linked test program.",
     [Q, "src/vm/vm.c"],
     [("segment bases of the second pass", Q + ": Assemble"), ("map file", Q + ": WriteMapFile, sort_symbols"), ("segments in memory", "src/vm/vm.c: VM_LoadQVM")],
     [], ["map file", "VM memory", "results of calls"],
     "end-to-end monitor: generated programs are loaded in the interpreter (ASan) and every function and object is examined at run time",
     note="The expectation comes from the generator, not from a second assembler.")
