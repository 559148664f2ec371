#include "flags.c"
