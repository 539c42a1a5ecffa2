VMC = "src/vm/vm.c"
VMH = "src/vm/vm.h"
P = []


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), technique="", level="exploration", note=""):
    P.append(dict(
        d=dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
               anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                            observe_at=list(observe), hook_needed=None)),
        technique=technique, level=level, note=note))


prop("C01", "Bytecode cannot touch host memory or crash the host",
     "Whatever bytecode the host loads and calls, the interpreter reads and writes only the VM's own memory, its own tables and its own host stack frame: no host memory outside of the VM's data segment changes, no out-of-bounds read happens, the host process never crashes or executes undefined behaviour. "
     "This includes code that forges return addresses, misaligns or exhausts the program stack, unbalances the operand stack, uses wild addresses in loads, stores, arguments and block copies, or never returns a value. "
     "A run ends by returning from VM_Call (with an error reported or not); only code that loops forever does not.",
     ["programs", "inputs", "configurations"], "all bytecode images, all arguments, both dispatch variants and the DEBUG_VM build",
     "One compiler-generated program is run; the sandbox matters exactly for code no compiler generates.",
     [VMC, VMH],
     [("dataMask applied to every load/store address", VMC + ": OP_LOAD*/OP_STORE*/OP_ARG"), ("uint8_t operand stack index that wraps", VMC + ": opStackOfs"),
      ("program counter checks in CALL, JUMP, LEAVE and after system calls", VMC + ": VM_CallInterpreted"), ("stack bounds in ENTER/LEAVE", VMC + ": VM_CallInterpreted"),
      ("branch targets validated while loading", VMC + ": VM_PrepareInterpreter"), ("range check of block copies", VMC + ": VM_BlockCopy")],
     [("dataBase/dataMask", "VM memory, power of two sized", VMH), ("codeBase", "expanded code", VMH)], ["VM_Call", "Com_malloc blocks", "sanitizer reports"],
     "ASan/UBSan, red zones and read-only pages around generated hostile bytecode",
     note="No violation on any generated run; sanitizers see every out-of-bounds access of the instrumented interpreter. Bytecode that never ends is cut off and not judged.")

prop("C02", "The loader accepts exactly well-formed images and survives all others",
     "VM_Create accepts an image exactly if its magic, section offsets and lengths are consistent with the image length, all opcodes and operands lie inside of the code section and all branch targets are existing instructions. "
     "Any other byte string is refused with -1, an error report and an error code in the VM, without reading outside of the image, writing to it, leaking memory or crashing; calling or freeing the refused VM afterwards is harmless.",
     ["inputs"], "all byte strings up to the maximum image size, all header values including those whose sums overflow",
     "One valid image and a few missing/short files are tried by hand.",
     [VMC], [("header validation", VMC + ": VM_LoadQVM"), ("expansion and branch check", VMC + ": VM_PrepareInterpreter"), ("clean-up after failure", VMC + ": VM_Create")],
     [("vmHeader_t", "little endian section table", VMH)], ["VM_Create", "Com_Error", "Com_malloc/Com_free"],
     "structure-aware image mutation under ASan/UBSan with an independent validator as oracle",
     note="The verdict of every generated image is compared with an independent validator. Images are placed at page ends and in exact-size heap blocks.")

prop("C03", "Every instruction computes what the instruction set defines",
     "Each Q3VM instruction (integer, unsigned, float, conversion, sign extension, compare-and-branch, load, store, argument, local, constant, block copy, stack) has exactly its documented effect on the operand stack and the VM memory, for all operand values: 32-bit wrap-around arithmetic, truncating signed division, unsigned variants, IEEE single precision, little-endian memory of 1, 2 and 4 bytes, address wrap-around at the memory mask. "
     "No instruction changes anything else in the VM memory.",
     ["inputs", "programs"], "all operand values and instruction sequences whose result the instruction set defines",
     "The test program uses a handful of operands per instruction and never reaches most compare/shift/unsigned combinations.",
     [VMC], [("interpreter loop", VMC + ": VM_CallInterpreted")], [("opStack", "operand stack", VMC), ("image", "VM memory", VMC)], ["VM_Call result", "VM memory after each call", "system call arguments"],
     "online reference model run in lock step with the real interpreter on generated programs",
     note="Complete VM memory, trace and result compared with an independent model; all pairs of 55 integer / 29 float edge values per instruction.")

prop("C04", "Control flow goes exactly where the bytecode says",
     "Calls, returns, conditional branches, computed jumps and recursion transfer control to the instruction index the bytecode names, with the callee seeing its own frame and arguments and the caller continuing behind the call with its locals, operand stack and stack pointer as before. "
     "A call or jump to a non-existing instruction, running into an undefined instruction or off the end of the code, and recursion beyond the program stack end the call with the matching error and -1 instead of continuing anywhere else.",
     ["programs", "inputs"], "all call graphs, recursion depths, frame sizes, jump tables and targets",
     "One call tree with fixed depth is executed; invalid targets and stack exhaustion never are.",
     [VMC], [("instructionPointers", VMC + ": VM_PrepareInterpreter"), ("CALL/LEAVE/JUMP/ENTER", VMC + ": VM_CallInterpreted")], [("programStack", "frame pointer of the VM", VMH)],
     ["VM memory, trace, result, reported error"], "online reference model on generated call graphs, with faults",
     note="Return addresses are opaque tokens in the model, so that their encoding is not part of the specification.")

prop("C05", "System calls deliver arguments and results unchanged",
     "When the bytecode calls function -1-n the host handler is called exactly once, in program order, with argument 0 equal to n and arguments 1 to 15 equal to the words the bytecode passed (sign-extended), and the low 32 bits of the handler's result become the value of the call. "
     "Memory the handler reads or writes through translated addresses is the same memory the bytecode sees, before and after the call; nothing else in the VM changes because of a system call.",
     ["programs", "inputs", "histories"], "all system call numbers, argument counts and values, call positions (inside of expressions, loops, recursion), handler side effects",
     "A few system calls with at most four arguments are checked.",
     [VMC, VMH], [("argument array of the system call", VMC + ": OP_CALL"), ("VM_ArgPtr", VMC)], [("systemCall", "handler of the host", VMH)], ["calls of the handler with all 16 words", "VM memory"],
     "online trace comparison with a reference model",
     note="All 16 argument words are recorded and compared where the model defines them.")

prop("C06", "VM_Call passes arguments, nests and keeps VMs apart",
     "VM_Call delivers the command and all 12 arguments to the entry function, returns its 32-bit result, and keeps the data segment between calls. "
     "Calls may be nested from system calls to any depth, on the same or another VM: the interrupted run continues with unchanged frames, operands and stack pointer, and after the outermost call the VM is idle with the program stack where it was. "
     "VMs share no state: interleaved runs behave like separate runs.",
     ["programs", "histories", "inputs"], "all sequences and nestings of calls on one or two VMs, all argument values",
     "One recursive call with one argument is tested.",
     [VMC], [("argument block of the entry frame", VMC + ": VM_CallInterpreted"), ("programStack saved for nested calls", VMC + ": OP_CALL, VM_Call")], [("callLevel", "nesting depth", VMH), ("programStack", "frame for the next entry", VMH)],
     ["VM_Call", "nested VM_Call in the handler"], "online reference model on call histories with nesting",
     note="Nesting up to depth 3 plus a second VM; up to four calls in a row.")

prop("C07", "Range helpers never let the host or a block copy leave the VM memory",
     "VM_MemoryRangeValid returns 0 only if the address is not null and the whole range lies in the VM memory, and accepts every non-null range that ends before the last byte; invalid ranges are reported as out of range. "
     "VM_ArgPtr always yields an address inside of the VM memory (NULL for 0), the byte behind the VM memory stays zero so that strings end, and a block copy copies exactly its bytes or, if either range leaves the memory, copies nothing and reports an error.",
     ["inputs", "programs"], "all addresses and lengths (including overflowing sums), all memory sizes, all block copies",
     "No test calls the range helper with a bad range or copies a block out of range.",
     [VMC, VMH, "src/main.c"], [("VM_MemoryRangeValid", VMC), ("VM_ArgPtr", VMC), ("VM_BlockCopy", VMC), ("4 spare bytes behind the mask", VMC + ": VM_LoadQVM")], [("dataMask", "size of the VM memory - 1", VMH)],
     ["return values, Com_Error, memory"], "oracle on the range API and on block copies under ASan, with valid ranges touched",
     note="Ranges that end exactly with the last byte may be accepted or refused.")

prop("C08", "Failures are reported exactly once, with the right code, and leave the VM usable",
     "If and only if the bytecode fails (undefined or missing instruction, bad call/jump target, stack overflow, unbalanced operand stack, division by zero, block copy out of range, free while running), the host gets one error report with the matching code, the same code is in the VM's last error, and a VM_Call that a failure ends early returns -1. "
     "After the failure the VM is not marked as running, its stack pointer is restored, and further calls on it and on any caller that was active behave as specified.",
     ["programs", "histories", "fault_sequences"], "all failing programs, failures inside of nested calls, sequences of failing and good calls",
     "No test makes bytecode fail.",
     [VMC, VMH], [("Com_Error and lastError", VMC), ("state restored after errors", VMC + ": VM_Call")], [("lastError", "code of the last failure", VMH)], ["Com_Error", "VM_Call result", "vm_t::lastError"],
     "trace oracle over error reports from a reference model",
     note="The model gives the set of allowed codes per failure.")

prop("C09", "Allocations are conserved, also when memory runs out",
     "Every block VM_Create obtains from the host's allocator is released exactly once, with the same type and VM, by VM_Free or by the failing VM_Create itself; at any allocation failing VM_Create returns -1, reports out-of-memory and leaves nothing behind. "
     "A VM can be created, called and freed any number of times, freeing twice, freeing NULL or a VM that was never loaded is harmless, and freeing a running VM is refused without releasing anything.",
     ["fault_sequences", "histories", "inputs"], "every position of a failing allocation, all images, all create/call/free sequences",
     "valgrind sees one create/free pair; no allocation ever fails.",
     [VMC, VMH], [("VM_Create error paths", VMC), ("VM_Free", VMC)], [("Com_malloc/Com_free", "callbacks of the host", VMH)], ["Com_malloc", "Com_free"],
     "allocation ledger with injected allocation failures", "fault_enumeration",
     note="Every allocation of VM_Create fails once per image; the ledger checks pairing, type and owner.")

prop("C10", "Execution is deterministic",
     "The observable course of a VM - results, errors, system call traces with all arguments, contents of the VM memory - depends only on the image, the arguments and what the handlers do, never on uninitialised host memory, addresses or earlier VMs.",
     ["programs", "inputs", "histories"], "all bytecode including hostile code, all prior contents of host memory",
     "Tests run each program once in one environment.",
     [VMC], [("memset of data, code and operand stack", VMC + ": VM_LoadQVM, VM_PrepareInterpreter, VM_CallInterpreted")], [], ["everything observable of two runs"],
     "self-composition: repeated runs with different host memory, plus valgrind memcheck",
     note="Three runs per program with different fill patterns of heap and stack; also hostile code.")

prop("C11", "All build variants of the interpreter behave the same",
     "Computed-goto and switch dispatch, the DEBUG_VM build, and all optimisation levels of gcc and clang give the same results, errors, system call traces and memory for every program, as far as the instruction set defines them (DEBUG_VM may additionally refuse misaligned or nearly exhausted stacks).",
     ["configurations", "programs"], "dispatch variants x compilers x optimisation levels x programs",
     "The test suite builds one variant.",
     [VMC], [("USE_COMPUTED_GOTOS / DEBUG_VM", VMC)], [], ["digest of all results per build"],
     "differential execution of nine builds over the same programs",
     note="Nine builds; the model decides which results are defined.")

prop("C12", "Different VMs can run in different threads",
     "VMs in different threads, created from the same or different read-only images, can be created, called and freed at the same time without data races and with the same results as alone.",
     ["schedules", "programs"], "all interleavings of threads that use their own VM",
     "All tests are single threaded.",
     [VMC, VMH], [("all state in vm_t", VMH)], [], ["ThreadSanitizer", "results per thread"],
     "ThreadSanitizer stress with per-thread result comparison",
     note="The release build; DEBUG_VM is documented as not thread safe. Schedules are those the OS produced under TSan.")

prop("C13", "The VM memory starts with exactly the image's data",
     "Right after VM_Create the VM memory is a power of two in size, the smallest that holds data, literals and bss; it holds the image's data (32-bit words in host order) and literals byte for byte and zeros everywhere else, for all section sizes and file layouts.",
     ["inputs"], "all section sizes, gaps and section orders",
     "One image with one layout is loaded.",
     [VMC], [("copy and byte swap", VMC + ": VM_LoadQVM")], [("dataBase", "VM memory", VMH)], ["VM memory after VM_Create"],
     "byte-for-byte comparison of the initial memory with a model loader",
     note="All bytes compared for sizes around word, page and power of two boundaries.")

MAIN = "src/main.c"

prop("C14", "q3vm shows exactly what the program it runs does",
     "For every loadable file q3vm behaves as if the program ran alone: what it prints goes to standard output byte for byte, what it reports to standard error, the services memset and memcpy act on the VM memory exactly as in C and ignore null addresses, an unknown service is reported and returns 0, and the exit status is the value of vmMain. "
     "A program that fails ends q3vm with exactly one message and the status of the error; services that would leave the VM memory count as such failures. "
     "Every other file - truncated, empty, missing, damaged, too large, a directory - and lack of memory end in a message and a failure status, never in a crash.",
     ["programs", "inputs", "fault_sequences"], "all programs that use the services, all results, all errors, all files, all limits of memory",
     "Tests run two programs that use few services and end without errors.",
     [MAIN, VMC], [("systemCalls", MAIN), ("loadImage", MAIN), ("Com_Error, exit status", MAIN)], [], ["stdout, stderr and exit status of q3vm"],
     "online monitor of a model of the host around generated programs (gcc, clang and ASan builds), with damaged files and limited memory",
     note="The model predicts every byte of both outputs and the exit status.")

prop("C15", "Trace and profile of the debug build tell what really ran",
     "With DEBUG_VM the profile's counts add up to the number of executed instructions and each function's count is the number of instructions executed in it since the last profile; the trace lists every function entered and left, every system call and (level 2) every instruction in order, with the right names, nesting and operand stack depth, also across nested calls and when tracing is switched on in between. "
     "The map file beside the image is read in every layout its format allows, and no map file, damaged map file or lack of memory changes what the program does, crashes the host or loses memory.",
     ["programs", "inputs", "fault_sequences"], "all programs, all debug levels, all map files, all failing allocations",
     "No test builds DEBUG_VM; nothing reads its output.",
     [VMC, VMH], [("VM_LoadSymbols, COM_Parse", VMC), ("profileSymbol", VMC + ": VM_CallInterpreted"), ("VM_VmProfile_f", VMC), ("VM_ValueToSymbol", VMC)], [("profileCount", "instructions executed", VMH)], ["VM_Debug output", "VM_VmProfile_f output"],
     "trace and profile compared line by line with an independent machine model; ASan with damaged map files and failing allocations",
     note="OP_ENTER may be counted for the caller or the callee; otherwise counts, order and names are exact.")
