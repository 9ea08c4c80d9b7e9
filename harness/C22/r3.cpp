#include "rect.h"
TSUITE("double_1", 3000*3, 40000*3, (algebra<double, 1>))
TSUITE("double_2", 1500*3, 20000*3, (algebra<double, 2>))
TSUITE("float_2", 1500*3, 20000*3, (algebra<float, 2>))
