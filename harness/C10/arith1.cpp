#include "arith.h"
TSUITE("arith-double-3", 8000, 200000, (arith<double, 3>))
TSUITE("arith-float-7", 8000, 200000, (arith<float, 7>))
