#include "arith.h"
TSUITE("arith-double-5", 8000, 200000, (arith<double, 5>))
TSUITE("arith-int-3", 8000, 200000, (arith<int, 3>))
