#ifndef PROFILER_H
#define PROFILER_H
#include <flint/flint.h>
typedef struct { slong cpu; slong wall; } timeit_t[1];
MF void timeit_start(timeit_t t) { t->cpu = t->wall = 0; }
MF void timeit_stop(timeit_t t) { (void) t; }
#endif
