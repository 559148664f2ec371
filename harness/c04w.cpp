#include "c04w.c"
