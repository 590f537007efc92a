// nothing is expected of the outcome besides that there is one
#include "main.h"
static void oracle(int mode, unsigned char *p, int n) { fprintf(ref, "skip\n"); }
