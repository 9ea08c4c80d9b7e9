#include "rect.h"
TSUITE("int_3", 600*3, 8000*3, (algebra<int, 3>))
TSUITE("float_3", 600*3, 8000*3, (algebra<float, 3>))
