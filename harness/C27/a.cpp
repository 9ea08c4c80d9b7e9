#include "m.h"
TSUITE("rect/2d", 1500, 40000, (cov<Rect<double, 2>>))
TSUITE("rect/3f", 1500, 40000, (cov<Rect<float, 3>>))
TSUITE("rect/3d", 1500, 40000, (cov<Rect<double, 3>>))
TSUITE("rect/4d", 1500, 40000, (cov<Rect<double, 4>>))
TSUITE("sphere/2f", 1500, 40000, (cov<Sphere<float, 2>>))
TSUITE("sphere/3d", 1500, 40000, (cov<Sphere<double, 3>>))
TSUITE("cylinder/3d", 1500, 40000, (cov<Cylinder<double, 3>>))
