#include "m.h"
TSUITE("extruded/sphere-2d", 1200, 40000, (rays<Extruded<Sphere<double, 2>>>))
TSUITE("extruded/rect-2f", 1200, 40000, (rays<Extruded<Rect<float, 2>>>))
TSUITE("extruded/rect-3d", 1200, 40000, (rays<Extruded<Rect<double, 3>>>))
TSUITE("extruded/cylinder-2d", 1200, 40000, (rays<Extruded<Cylinder<double, 2>>>))
TSUITE("extruded/extruded-sphere-2d", 1200, 40000, (rays<Extruded<Extruded<Sphere<double, 2>>>>))
TSUITE("extruded/simplex-2d", 1200, 40000, (rays<Extruded<Simplex<double, 2>>>))
TSUITE("oriented/rect-2d", 1200, 40000, (rays<Oriented<Rect<double, 2>>>))
TSUITE("oriented/rect-3f", 1200, 40000, (rays<Oriented<Rect<float, 3>>>))
TSUITE("oriented/sphere-3d", 1200, 40000, (rays<Oriented<Sphere<double, 3>>>))
TSUITE("oriented/cylinder-3d", 1200, 40000, (rays<Oriented<Cylinder<double, 3>>>))
