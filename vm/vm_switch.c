/* vm.c with the portable switch dispatch instead of computed gotos */
#include <stdarg.h>
#include <stddef.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
#undef __GNUC__
#include "vm.c"
