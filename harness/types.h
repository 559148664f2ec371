#ifndef TYPES_H
#define TYPES_H
struct small { int a; char b; };
struct large { long v[4]; };
typedef struct small small_t; typedef struct large large_t;
#endif
