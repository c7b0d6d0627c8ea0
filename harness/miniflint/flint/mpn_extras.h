#include <flint/flint.h>
