#include "m.h"
TSUITE("capsule/3d", 1500, 40000, (cov<Capsule<double, 3>>))
TSUITE("simplex/2d", 1500, 40000, (cov<Simplex<double, 2>>))
TSUITE("simplex/3d", 1500, 40000, (cov<Simplex<double, 3>>))
TSUITE("extruded/sphere-2d", 1500, 40000, (cov<Extruded<Sphere<double, 2>>>))
TSUITE("frustum/rect-2d", 1500, 40000, (cov<Frustum<Rect<double, 2>>>))
TSUITE("dilated/rect-2d", 1500, 40000, (cov<Dilated<Rect<double, 2>>>))
