#include "arith.h"
TSUITE("arith-double-2", 8000, 200000, (arith<double, 2>))
TSUITE("arith-float-4", 8000, 200000, (arith<float, 4>))
