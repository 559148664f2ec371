#ifndef TYPES2_H
#define TYPES2_H
typedef struct { int a,b; } pair_t;
#endif
