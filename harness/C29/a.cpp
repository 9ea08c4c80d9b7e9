#include "m.h"
TSUITE("metric/2d", 3000, 60000, (metric<double, 2>))
TSUITE("metric/2f", 3000, 60000, (metric<float, 2>))
TSUITE("metric/3d", 3000, 60000, (metric<double, 3>))
TSUITE("metric/3f", 3000, 60000, (metric<float, 3>))
TSUITE("metric/4d", 1500, 40000, (metric<double, 4>))
TSUITE("metric/5d", 800, 20000, (metric<double, 5>))
