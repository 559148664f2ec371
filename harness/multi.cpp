#include "multi.c"
