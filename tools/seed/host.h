/* A small host and image assembler for the demonstrations. */
#include "vm.h"
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

enum { UNDEF, IGNORE, BREAK, ENTER, LEAVE, CALL, PUSH, POP, CONST, LOCAL, JUMP,
       EQ, NE, LTI, LEI, GTI, GEI, LTU, LEU, GTU, GEU, EQF, NEF, LTF, LEF, GTF, GEF,
       LOAD1, LOAD2, LOAD4, STORE1, STORE2, STORE4, ARG, BLOCK_COPY,
       SEX8, SEX16, NEGI, ADD, SUB, DIVI, DIVU, MODI, MODU, MULI, MULU,
       BAND, BOR, BXOR, BCOM, LSH, RSHI, RSHU, NEGF, ADDF, SUBF, DIVF, MULF, CVIF, CVFI };

static int      errors, lastCode, allocs, frees;
static intptr_t (*handler)(vm_t*, intptr_t*);

#ifndef OWN_HOST
void Com_Error(vmErrorCode_t level, const char* error)
{
    errors++;
    lastCode = level;
    fprintf(stderr, "Com_Error(%d): %s\n", (int)level, error);
}
void* Com_malloc(size_t size, vm_t* vm, vmMallocType_t type)
{
    (void)vm; (void)type;
    allocs++;
    return malloc(size);
}
void Com_free(void* p, vm_t* vm, vmMallocType_t type)
{
    (void)vm; (void)type;
    frees++;
    free(p);
}
#endif

static unsigned char* code;
static int ncode, nins, capcode;
static void byte_(int v)
{
    if (ncode == capcode) code = realloc(code, capcode = capcode * 2 + 64);
    code[ncode++] = (unsigned char)v;
}
static void word_(unsigned v) { int i; for (i = 0; i < 4; i++) byte_((int)(v >> (8 * i)) & 255); }
/* emit an instruction; returns its index */
static int I(int op, ...)
{
    va_list ap;
    va_start(ap, op);
    byte_(op);
    if (op == ARG) byte_(va_arg(ap, int));
    else if (op == ENTER || op == LEAVE || op == CONST || op == LOCAL || op == BLOCK_COPY || (op >= EQ && op <= GEF)) word_((unsigned)va_arg(ap, int));
    va_end(ap);
    return nins++;
}
static unsigned char* image;
static int imageLen;
static void put(int at, unsigned v) { int i; for (i = 0; i < 4; i++) image[at + i] = (unsigned char)(v >> (8 * i)); }
static void link_(const void* data, int dlen, int llen, int bss)
{
    imageLen = 32 + ncode + dlen + llen;
    image = calloc(1, imageLen);
    put(0, 0x12721444);
    put(4, nins);
    put(8, 32);
    put(12, ncode);
    put(16, 32 + ncode);
    put(20, dlen);
    put(24, llen);
    put(28, bss);
    memcpy(image + 32, code, ncode);
    if (data) memcpy(image + 32 + ncode, data, dlen + llen);
}
static intptr_t sys_(vm_t* vm, intptr_t* args) { return handler ? handler(vm, args) : 0; }
static vm_t vm;
static int start(void) { return VM_Create(&vm, "demo", image, imageLen, sys_); }
#define RUN(...) ((int)VM_Call(&vm, __VA_ARGS__))
#define RUN0(c) ((int)VM_Call(&vm, c, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0))
#define CHECK(c) do { if (!(c)) { fprintf(stderr, "line %d: %s\n", __LINE__, #c); exit(1); } } while (0)
static inline void quiet_(void) { (void)errors; (void)lastCode; (void)allocs; (void)frees; (void)I; (void)link_; (void)start; quiet_; }
