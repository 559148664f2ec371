#include "names.c"
