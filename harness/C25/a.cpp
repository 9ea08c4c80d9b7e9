#include "m.h"
TSUITE("sphere/2d", 3000, 60000, (surface<Sphere<double, 2>>))
TSUITE("sphere/3f", 3000, 60000, (surface<Sphere<float, 3>>))
TSUITE("sphere/4d", 3000, 60000, (surface<Sphere<double, 4>>))
TSUITE("rect/2d", 3000, 60000, (surface<Rect<double, 2>>))
TSUITE("rect/3f", 3000, 60000, (surface<Rect<float, 3>>))
TSUITE("rect/4d", 3000, 60000, (surface<Rect<double, 4>>))
TSUITE("cylinder/2d", 3000, 60000, (surface<Cylinder<double, 2>>))
TSUITE("cylinder/3f", 3000, 60000, (surface<Cylinder<float, 3>>))
TSUITE("cylinder/3d", 3000, 60000, (surface<Cylinder<double, 3>>))
TSUITE("cylinder/4d", 3000, 60000, (surface<Cylinder<double, 4>>))
TSUITE("capsule/2d", 3000, 60000, (surface<Capsule<double, 2>>))
TSUITE("capsule/3f", 3000, 60000, (surface<Capsule<float, 3>>))
TSUITE("capsule/4d", 3000, 60000, (surface<Capsule<double, 4>>))
