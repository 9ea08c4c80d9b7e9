#include "m.h"
TSUITE("sphere/2d", 3000, 60000, (member<Sphere<double, 2>>))
TSUITE("sphere/3f", 3000, 60000, (member<Sphere<float, 3>>))
TSUITE("sphere/4d", 3000, 60000, (member<Sphere<double, 4>>))
TSUITE("rect/2d", 2000, 40000, (member<Rect<double, 2>>))
TSUITE("rect/3f", 2000, 40000, (member<Rect<float, 3>>))
TSUITE("rect/4d", 2000, 40000, (member<Rect<double, 4>>))
TSUITE("cylinder/2d", 3000, 60000, (member<Cylinder<double, 2>>))
TSUITE("cylinder/3d", 3000, 60000, (member<Cylinder<double, 3>>))
TSUITE("cylinder/3f", 3000, 60000, (member<Cylinder<float, 3>>))
TSUITE("cylinder/4d", 3000, 60000, (member<Cylinder<double, 4>>))
TSUITE("capsule/2d", 3000, 60000, (member<Capsule<double, 2>>))
TSUITE("capsule/3f", 3000, 60000, (member<Capsule<float, 3>>))
TSUITE("capsule/3d", 3000, 60000, (member<Capsule<double, 3>>))
TSUITE("capsule/5d", 3000, 60000, (member<Capsule<double, 5>>))
