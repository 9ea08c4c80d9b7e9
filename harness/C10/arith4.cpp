#include "arith.h"
TSUITE("arith-float-2", 8000, 200000, (arith<float, 2>))
TSUITE("arith-int-4", 8000, 200000, (arith<int, 4>))
