#include "c05.c"
