// Loads a .qvm in the interpreter and answers questions about it from stdin:
//   c IDX        call the function with that instruction index (through vmMain)
//   m ADDR SIZE  memory bytes in hex
extern "C" {
#include "vm.h"
}
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <vector>

static int errors;
extern "C" void Com_Error(vmErrorCode_t level, const char* error)
{
    errors++;
    fprintf(stderr, "Com_Error(%d): %s\n", (int)level, error);
}
extern "C" void* Com_malloc(size_t size, vm_t*, vmMallocType_t) { return malloc(size); }
extern "C" void Com_free(void* p, vm_t*, vmMallocType_t) { free(p); }
static intptr_t sys(vm_t*, intptr_t* args) { return 1000 + args[0] * 10 + args[1]; }

int main(int argc, char** argv)
{
    FILE* f = fopen(argv[1], "rb");
    if (!f) return 9;
    std::vector<uint8_t> b;
    int c;
    while ((c = getc(f)) != EOF) b.push_back((uint8_t)c);
    fclose(f);
    vm_t vm;
    memset(&vm, 0, sizeof vm);
    if (VM_Create(&vm, "image", b.data(), (int)b.size(), sys) != 0) {
        puts("=rejected");
        return 0;
    }
    puts("=loaded");
    char op;
    unsigned a, n;
    while (scanf(" %c %u", &op, &a) == 2) {
        if (op == 'c') {
            intptr_t r = VM_Call(&vm, a, 0);
            printf("=%u %d\n", (unsigned)r, errors);
        } else {
            if (scanf("%u", &n) != 1) break;
            const uint8_t* p = (const uint8_t*)VM_ArgPtr(a, &vm);
            putchar(61);
            for (unsigned i = 0; i < n; i++) printf("%02x", p[i]);
            puts(n ? "" : "-");
        }
    }
    VM_Free(&vm);
    return 0;
}
