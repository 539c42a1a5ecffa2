VM = "src/vm/vm.c"
SEEDS = []


def add(id, prop, edits, needs, breaks, body, flags=None, own=False):
    files = {"demo.c": ('#define OWN_HOST\n' if own else '') + '#include "host.h"\n' + body}
    if flags:
        files["flags"] = flags
    SEEDS.append(dict(id=id, property=prop, edits=edits, needs=needs, breaks=breaks, files=files, copy=["host.h", "demo_vm.sh"]))


add("vm01-opstack-depth", "C01",
    [(VM, "#define OPSTACK_SIZE 1024", "#define OPSTACK_SIZE 960")],
    "an expression that is more than 240 operands deep",
    "the operand stack index wraps at 256 words, but the host array has only 240: the top of a deep operand stack overwrites the host stack",
    """
int main(void)
{
    int i;
    I(ENTER, 8);
    for (i = 0; i < 253; i++) I(CONST, i * 3);
    for (i = 0; i < 252; i++) I(ADD);
    I(LEAVE, 8);
    link_(0, 0, 0, 0x20000);
    CHECK(start() == 0);
    CHECK(RUN0(0) == 252 * 253 / 2 * 3);
    return 0;
}
""", "-fsanitize=address,undefined -fno-sanitize=alignment,shift -fno-sanitize-recover=all")

add("vm02-arg-unmasked", "C01",
    [(VM, """            *(int*)&image[(codeImage[programCounter] + programStack) &
                          dataMask] = r0;""",
      """            *(int*)&image[codeImage[programCounter] + programStack] = r0;""")],
    "an OP_ARG in a frame so close to the end of the memory that the argument offset leaves it",
    "the argument is written behind the VM memory",
    """
int main(void)
{
    I(CONST, 0x41414141);
    I(ARG, 252);
    I(CONST, 7);
    I(LEAVE, 0);
    link_(0, 0, 0, 0x20000);
    CHECK(start() == 0);
    CHECK(RUN0(0) == 7);
    return 0;
}
""", "-fsanitize=address")

add("vm03-lit-negative", "C02",
    [(VM, """            header.h->litLength < 0 || header.h->codeLength <= 0 ||""",
      """            header.h->codeLength <= 0 ||""")],
    "a header with a negative literal length",
    "an image with a negative literal section length is accepted",
    """
int main(void)
{
    I(ENTER, 8);
    I(CONST, 1);
    I(LEAVE, 8);
    static int d[32];
    link_(d, 128, 0, 0x20000);
    put(24, (unsigned)-64);
    CHECK(start() == -1);
    return 0;
}
""", "-fsanitize=address")

add("vm04-gef-nan", "C03",
    [(VM, "((float*)opStack)[(uint8_t)(opStackOfs + 1)] >=\n                ((float*)opStack)[(uint8_t)(opStackOfs + 2)]",
      "!(((float*)opStack)[(uint8_t)(opStackOfs + 1)] <\n                ((float*)opStack)[(uint8_t)(opStackOfs + 2)])")],
    "a comparison with a NaN operand",
    "OP_GEF branches if an operand is NaN",
    """
int main(void)
{
    I(ENTER, 8);
    I(CONST, 0x7fc00000);
    I(CONST, 0x3f800000);
    I(GEF, 6);
    I(CONST, 1);
    I(LEAVE, 8);
    I(CONST, 2);
    I(LEAVE, 8);
    link_(0, 0, 0, 0x20000);
    CHECK(start() == 0);
    CHECK(RUN0(0) == 1);
    return 0;
}
""")

add("vm05-jump-16bit", "C04",
    [(VM, "            programCounter = vm->instructionPointers[r0];\n", "            programCounter = vm->instructionPointers[(unsigned short)r0];\n")],
    "a computed jump to an instruction behind number 65535",
    "computed jumps to instructions with a number of more than 16 bits go elsewhere",
    """
int main(void)
{
    int i;
    I(ENTER, 8);
    I(CONST, 70000);
    I(JUMP);
    for (i = 3; i < 70000; i++) I(UNDEF);
    I(CONST, 5);
    I(LEAVE, 8);
    link_(0, 0, 0, 0x20000);
    CHECK(start() == 0);
    CHECK(RUN0(0) == 5);
    return 0;
}
""")

add("vm06-sysarg-zeroext", "C05",
    [(VM, "                        argarr[i] = *(++imagePtr);", "                        argarr[i] = (unsigned)*(++imagePtr);")],
    "a negative system call argument on a 64-bit host whose handler uses the full word",
    "negative arguments arrive zero-extended",
    """
static intptr_t got;
static intptr_t h(vm_t* v, intptr_t* a) { got = a[1]; return 0; }
int main(void)
{
    handler = h;
    I(ENTER, 16);
    I(CONST, -5);
    I(ARG, 8);
    I(CONST, -1);
    I(CALL);
    I(LEAVE, 16);
    link_(0, 0, 0, 0x20000);
    CHECK(start() == 0);
    RUN0(0);
    CHECK(got == -5);
    return 0;
}
""")

add("vm07-nested-stack", "C06",
    [(VM, "                vm->programStack = programStack - 4;", "                if (vm->callLevel < 2)\n                {\n                    vm->programStack = programStack - 4;\n                }")],
    "a VM_Call that is nested two levels deep",
    "the frame of the second nested VM_Call overlaps the frame of the first one",
    """
static intptr_t h(vm_t* v, intptr_t* a)
{
    if (a[1] <= 0) return 0;
    return VM_Call(v, (int)a[1] - 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0);
}
int main(void)
{
    handler = h; /* f(n) = n + f(n - 1), through the host */
    I(ENTER, 24);
    I(LOCAL, 20); I(LOCAL, 32); I(LOAD4); I(STORE4);
    I(LOCAL, 32); I(LOAD4); I(ARG, 8); I(CONST, -1); I(CALL);
    I(LOCAL, 20); I(LOAD4); I(ADD);
    I(LEAVE, 24);
    link_(0, 0, 0, 0x20000);
    CHECK(start() == 0);
    CHECK(RUN0(1) == 1);
    CHECK(RUN0(4) == 10);
    return 0;
}
""")

add("vm08-argptr-sign", "C07",
    [(VM, "    return (void*)(vm->dataBase + (vmAddr & vm->dataMask));", "    if (vmAddr < 0)\n    {\n        vmAddr = -vmAddr;\n    }\n    return (void*)(vm->dataBase + (vmAddr & vm->dataMask));")],
    "a negative address passed to VM_ArgPtr",
    "negative (or above 2^31) addresses are translated to another byte than the interpreter's loads and stores use",
    """
int main(void)
{
    I(ENTER, 8);
    I(CONST, 1);
    I(LEAVE, 8);
    link_(0, 0, 0, 0x20000);
    CHECK(start() == 0);
    CHECK((unsigned char*)VM_ArgPtr(-16, &vm) == vm.dataBase + vm.dataMask - 15);
    return 0;
}
""")

add("vm09-stackerr-silent", "C08",
    [(VM, "    if (opStackOfs != 1 || *opStack != 0x0000BEEF)", "    if (opStackOfs < 1 || *opStack != 0x0000BEEF)")],
    "a program that returns with more than one operand on the operand stack",
    "an unbalanced operand stack is not reported any more",
    """
int main(void)
{
    I(ENTER, 8);
    I(CONST, 1);
    I(CONST, 2);
    I(LEAVE, 8);
    link_(0, 0, 0, 0x20000);
    CHECK(start() == 0);
    RUN0(0);
    CHECK(lastCode == VM_STACK_ERROR && errors == 1);
    return 0;
}
""")

add("vm10-free-order", "C09",
    [(VM, """    if (vm->instructionPointers)
    {
        Com_free(vm->instructionPointers, vm, VM_ALLOC_INSTRUCTION_POINTERS);
        vm->instructionPointers = NULL;
    }
""", """    if (vm->instructionPointers && vm->codeLength)
    {
        Com_free(vm->instructionPointers, vm, VM_ALLOC_INSTRUCTION_POINTERS);
        vm->instructionPointers = NULL;
    }
"""), (VM, "    vm->codeLength = header->codeLength;\n\n    vm->compiled = 0; /* no JIT */\n    if (!vm->compiled)\n    {\n        if (VM_PrepareInterpreter(vm, bytecode, header) != 0)\n        {\n",
       "    vm->codeLength = header->codeLength;\n\n    vm->compiled = 0; /* no JIT */\n    if (!vm->compiled)\n    {\n        if (VM_PrepareInterpreter(vm, bytecode, header) != 0)\n        {\n            vm->codeLength = 0; /* not callable */\n")],
    "an image whose code section is damaged (bad opcode or branch target)",
    "the instruction table leaks if the code of an image is refused",
    """
int main(void)
{
    I(ENTER, 8);
    I(CONST, 1);
    I(LEAVE, 8);
    byte_(99);
    nins++;
    link_(0, 0, 0, 0x20000);
    CHECK(start() == -1);
    VM_Free(&vm);
    CHECK(allocs == frees);
    return 0;
}
""")

add("vm11-bss-dirty", "C10",
    [(VM, "    Com_Memset(vm->dataBase, 0, vm->dataAlloc);", "    Com_Memset(vm->dataBase + header.h->dataLength + header.h->litLength, 0,\n               header.h->bssLength);")],
    "memory between the end of bss and the power of two (above the declared sections, where the stack lies)",
    "memory behind the bss section keeps what the host's allocator left there: programs that read it behave differently from run to run",
    """
void Com_Error(vmErrorCode_t level, const char* error) { errors++; }
static int fill;
void* Com_malloc(size_t size, vm_t* vm, vmMallocType_t type)
{
    void* p = malloc(size);
    memset(p, fill, size);
    return p;
}
void Com_free(void* p, vm_t* vm, vmMallocType_t type) { free(p); }
int main(void)
{
    int a, b;
    I(ENTER, 64);
    I(LOCAL, 40);
    I(LOAD4);
    I(LEAVE, 64);
    link_(0, 0, 0, 0x10010);
    fill = 0;
    CHECK(start() == 0);
    a = RUN0(0);
    VM_Free(&vm);
    fill = 0x5a;
    CHECK(start() == 0);
    b = RUN0(0);
    CHECK(a == b);
    return 0;
}
""", own=True)

add("vm12-switch-case", "C11",
    [(VM, "#define goto_OP_LEU case OP_LEU\n#define goto_OP_GTU case OP_GTU\n#define goto_OP_GEU case OP_GEU",
      "#define goto_OP_LEU case OP_LEU\n#define goto_OP_GTU case OP_GEU\n#define goto_OP_GEU case OP_GTU")],
    "a build without computed gotos and an unsigned >= or > with equal operands",
    "the switch interpreter mixes up OP_GTU and OP_GEU",
    """
#include <stdio.h>
int main(void)
{
    I(ENTER, 8);
    I(CONST, 5);
    I(CONST, 5);
    I(GEU, 6);
    I(CONST, 1);
    I(LEAVE, 8);
    I(CONST, 2);
    I(LEAVE, 8);
    link_(0, 0, 0, 0x20000);
    CHECK(start() == 0);
    CHECK(RUN0(0) == 2);
    return 0;
}
""", "-DDEBUG_VM")

add("vm13-static-args", "C12",
    [(VM, "                    intptr_t argarr[MAX_VMSYSCALL_ARGS];", "                    static intptr_t argarr[MAX_VMSYSCALL_ARGS];")],
    "two threads (or a nested call) in a system call at the same time",
    "the argument array of system calls is shared by all VMs",
    """
#include <pthread.h>
static volatile int bad;
static intptr_t h(vm_t* v, intptr_t* a)
{
    int i;
    intptr_t x = a[1];
    for (i = 0; i < 2000; i++)
        if (*(volatile intptr_t*)&a[1] != x) bad = 1;
    return 0;
}
static void* run(void* p)
{
    vm_t m;
    int i;
    if (VM_Create(&m, "t", image, imageLen, sys_) != 0) bad = 1;
    for (i = 0; i < 3000; i++) VM_Call(&m, (int)(intptr_t)p, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0);
    VM_Free(&m);
    return 0;
}
int main(void)
{
    pthread_t t[4];
    intptr_t i;
    handler = h;
    I(ENTER, 16);
    I(LOCAL, 24); I(LOAD4); I(ARG, 8);
    I(CONST, -1);
    I(CALL);
    I(LEAVE, 16);
    link_(0, 0, 0, 0x20000);
    for (i = 0; i < 4; i++) pthread_create(&t[i], 0, run, (void*)(i * 1000 + 1));
    for (i = 0; i < 4; i++) pthread_join(t[i], 0);
    CHECK(!bad);
    return 0;
}
""")

add("vm14-lit-short", "C13",
    [(VM, "    Com_Memcpy(vm->dataBase, bytecode + header.h->dataOffset,\n               header.h->dataLength + header.h->litLength);",
      "    Com_Memcpy(vm->dataBase, bytecode + header.h->dataOffset,\n               (header.h->dataLength + header.h->litLength) & ~3);")],
    "an image whose data and literal sections do not end at a multiple of four",
    "the last one to three bytes of the literal section are zero",
    """
int main(void)
{
    static const char d[] = "abcdefghijk";
    I(ENTER, 8);
    I(CONST, 10);
    I(LOAD1);
    I(LEAVE, 8);
    link_(d, 4, 7, 0x20000);
    CHECK(start() == 0);
    CHECK(RUN0(0) == 'k');
    return 0;
}
""")
