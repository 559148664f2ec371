#include "c31.c"
