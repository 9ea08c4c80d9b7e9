#include "m.h"
TSUITE("sphere/2d", 1500, 40000, (extents<Sphere<double, 2>>))
TSUITE("sphere/3f", 1500, 40000, (extents<Sphere<float, 3>>))
TSUITE("sphere/5d", 1500, 40000, (extents<Sphere<double, 5>>))
TSUITE("rect/2d", 1500, 40000, (extents<Rect<double, 2>>))
TSUITE("rect/3f", 1500, 40000, (extents<Rect<float, 3>>))
TSUITE("cylinder/2d", 1500, 40000, (extents<Cylinder<double, 2>>))
TSUITE("cylinder/3f", 1500, 40000, (extents<Cylinder<float, 3>>))
TSUITE("cylinder/3d", 1500, 40000, (extents<Cylinder<double, 3>>))
TSUITE("cylinder/4d", 1500, 40000, (extents<Cylinder<double, 4>>))
TSUITE("capsule/2d", 1500, 40000, (extents<Capsule<double, 2>>))
TSUITE("capsule/3f", 1500, 40000, (extents<Capsule<float, 3>>))
TSUITE("capsule/4d", 1500, 40000, (extents<Capsule<double, 4>>))
TSUITE("simplex/2d", 1500, 40000, (extents<Simplex<double, 2>>))
TSUITE("simplex/3f", 1500, 40000, (extents<Simplex<float, 3>>))
TSUITE("simplex/4d", 1500, 40000, (extents<Simplex<double, 4>>))
