/* switch build: the system headers first, then hide the compiler's identity from the source */
#include <stdarg.h>
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#undef __GNUC__
