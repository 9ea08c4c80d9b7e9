#include "rect.h"
TSUITE("int_1", 3000*3, 40000*3, (algebra<int, 1>))
TSUITE("long_2", 1500*3, 20000*3, (algebra<index_t, 2>))
TSUITE("short_2", 800*3, 10000*3, (algebra<int16_t, 2>))
