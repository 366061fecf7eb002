#include <stdio.h>
FILE* sim_stderr(void);
#undef stderr
#define stderr (sim_stderr())
