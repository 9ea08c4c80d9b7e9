#include "affine.h"
TSUITE("double-2", 20000, 400000, (affine<double, 2>))
TSUITE("double-4", 15000, 300000, (affine<double, 4>))
