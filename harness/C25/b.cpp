#include "m.h"
TSUITE("extruded/sphere-2d", 3000, 60000, (surface<Extruded<Sphere<double, 2>>>))
TSUITE("extruded/rect-2f", 3000, 60000, (surface<Extruded<Rect<float, 2>>>))
TSUITE("extruded/rect-3d", 3000, 60000, (surface<Extruded<Rect<double, 3>>>))
TSUITE("extruded/capsule-2d", 3000, 60000, (surface<Extruded<Capsule<double, 2>>>))
TSUITE("extruded/cylinder-2d", 3000, 60000, (surface<Extruded<Cylinder<double, 2>>>))
TSUITE("extruded/extruded-sphere-2d", 3000, 60000, (surface<Extruded<Extruded<Sphere<double, 2>>>>))
TSUITE("extruded/dilated-rect-2d", 3000, 60000, (surface<Extruded<Dilated<Rect<double, 2>>>>))
