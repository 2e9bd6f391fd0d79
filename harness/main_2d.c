/* the command-line program, callable from the harness */
#define main vh_main_2d
#define MMG5_ctim vh_ctim_2d
#include "mmg2d/mmg2d.c"
