#include "m.h"
TSUITE("flat/2d", 2000, 60000, (flat<double, 2>))
TSUITE("flat/3f", 2000, 60000, (flat<float, 3>))
TSUITE("flat/3d", 2000, 60000, (flat<double, 3>))
TSUITE("flat/4d", 2000, 60000, (flat<double, 4>))
TSUITE("flat/5d", 2000, 60000, (flat<double, 5>))
TSUITE("verts/2d", 2000, 60000, (verts<double, 2>))
TSUITE("verts/3f", 2000, 60000, (verts<float, 3>))
TSUITE("verts/4d", 2000, 60000, (verts<double, 4>))
