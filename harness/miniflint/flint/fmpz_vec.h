#ifndef FMPZ_VEC_H
#define FMPZ_VEC_H
#include <flint/fmpz.h>
#endif
