#include "m.h"
TSUITE("sphere/2d", 1200, 40000, (rays<Sphere<double, 2>>))
TSUITE("sphere/3f", 1200, 40000, (rays<Sphere<float, 3>>))
TSUITE("sphere/4d", 1200, 40000, (rays<Sphere<double, 4>>))
TSUITE("rect/2d", 1200, 40000, (rays<Rect<double, 2>>))
TSUITE("rect/3f", 1200, 40000, (rays<Rect<float, 3>>))
TSUITE("rect/4d", 1200, 40000, (rays<Rect<double, 4>>))
TSUITE("cylinder/2d", 1200, 40000, (rays<Cylinder<double, 2>>))
TSUITE("cylinder/3f", 1200, 40000, (rays<Cylinder<float, 3>>))
TSUITE("cylinder/3d", 1200, 40000, (rays<Cylinder<double, 3>>))
TSUITE("cylinder/4d", 1200, 40000, (rays<Cylinder<double, 4>>))
TSUITE("simplex/2d", 1200, 40000, (rays<Simplex<double, 2>>))
TSUITE("simplex/3f", 1200, 40000, (rays<Simplex<float, 3>>))
TSUITE("simplex/3d", 1200, 40000, (rays<Simplex<double, 3>>))
TSUITE("simplex/4d", 1200, 40000, (rays<Simplex<double, 4>>))
