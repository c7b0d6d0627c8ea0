#include <flint/flint.h>
#include <flint/nmod_poly_mat.h>
