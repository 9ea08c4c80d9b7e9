#include "arith.h"
TSUITE("arith-double-4", 8000, 200000, (arith<double, 4>))
TSUITE("arith-int-2", 8000, 200000, (arith<int, 2>))
