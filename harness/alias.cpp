#include "alias.c"
