/* native 32-bit counterpart of the VM for generated programs */
#define NATIVE 1
#define double float
extern void out(int);
