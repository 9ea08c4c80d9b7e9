#include "arith.h"
TSUITE("arith-float-3", 8000, 200000, (arith<float, 3>))
TSUITE("arith-long-6", 8000, 200000, (arith<long, 6>))
