// run a .qvm: vmMain(0, 0), every out(x) is a line of output
extern "C" {
#include "vm.h"
}
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <sys/resource.h>
#include <vector>
static int errors;
extern "C" void Com_Error(vmErrorCode_t level, const char* error)
{
    errors++;
    printf("Com_Error(%d): %s\n", (int)level, error);
}
extern "C" void* Com_malloc(size_t size, vm_t*, vmMallocType_t) { return malloc(size); }
extern "C" void Com_free(void* p, vm_t*, vmMallocType_t) { free(p); }
static intptr_t sys(vm_t* vm, intptr_t* args)
{
    if (args[0] == 0) printf("%08x\n", (unsigned)args[1]);
    else if (args[0] == 1) {   // outs(text)
        const char* p = (const char*)VM_ArgPtr(args[1], vm);
        printf("s %s\n", p);
    } else if (args[0] == 2) { // memset
        if (VM_MemoryRangeValid(args[1], (size_t)args[3], vm) == 0) memset(VM_ArgPtr(args[1], vm), (int)args[2], (size_t)args[3]);
        return args[1];
    } else if (args[0] == 3) { // memcpy
        if (VM_MemoryRangeValid(args[1], (size_t)args[3], vm) == 0 && VM_MemoryRangeValid(args[2], (size_t)args[3], vm) == 0)
            memmove(VM_ArgPtr(args[1], vm), VM_ArgPtr(args[2], vm), (size_t)args[3]);
        return args[1];
    } else {
        printf("unknown system call %d\n", (int)args[0]);
    }
    return 0;
}
int main(int argc, char** argv)
{
    struct rlimit cpu = {120, 121}; // never outlive a killed check
    setrlimit(RLIMIT_CPU, &cpu);
    for (int i = 1; i < argc; i++) {
        FILE* f = fopen(argv[i], "rb");
        if (!f) return 9;
        std::vector<uint8_t> b;
        int c;
        while ((c = getc(f)) != EOF) b.push_back((uint8_t)c);
        fclose(f);
        vm_t vm;
        memset(&vm, 0, sizeof vm);
        if (VM_Create(&vm, "image", b.data(), (int)b.size(), sys) != 0) {
            puts("rejected");
            return 1;
        }
        printf("%08x\n", (unsigned)VM_Call(&vm, 0, 0));
        VM_Free(&vm);
    }
    return errors != 0;
}
