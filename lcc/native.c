/* start-up code without a C library: i386 Linux */
static char buf[1 << 16];
static int n;
static void flush(void)
{
    int r;
    __asm__ volatile("int $0x80" : "=a"(r) : "0"(4), "b"(1), "c"(buf), "d"(n) : "memory");
    n = 0;
}
void out(int x)
{
    unsigned u = (unsigned)x;
    int i;
    for (i = 28; i >= 0; i -= 4) buf[n++] = "0123456789abcdef"[u >> i & 15];
    buf[n++] = '\n';
    if (n > (1 << 16) - 64) flush();
}
void *memcpy(void *d, const void *s, unsigned long k) { char *a = d; const char *b = s; while (k--) *a++ = *b++; return d; }
void *memset(void *d, int c, unsigned long k) { char *a = d; while (k--) *a++ = (char)c; return d; }
extern int vmMain(int, int);
__attribute__((force_align_arg_pointer)) void _start(void)
{
    out(vmMain(0, 0));
    flush();
    __asm__ volatile("int $0x80" : : "a"(1), "b"(0));
    for (;;) ;
}
