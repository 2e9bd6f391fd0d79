/* the command-line program, callable from the harness */
#define main vh_main_s
#define MMG5_ctim vh_ctim_s
#include "mmgs/mmgs.c"
