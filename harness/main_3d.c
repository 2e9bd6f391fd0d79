/* the command-line program, callable from the harness */
#define main vh_main_3d
#define MMG5_ctim vh_ctim_3d
#include "mmg3d/mmg3d.c"
