#include "affine.h"
TSUITE("double-3", 30000, 600000, (affine<double, 3>))
TSUITE("float-3", 20000, 400000, (affine<float, 3>))
